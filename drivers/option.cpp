// P15: command line parser
#include <string.h>
#include <algorithm>
#include <sstream>
#include <unistd.h>
#include <sys/wait.h>
#include <cybozu/option.hpp>
#include "verif.hpp"
using namespace verif;
static Rng *gR;
#define R (*gR)
typedef std::string S; typedef std::vector<S> SV;
static S outName;
template<class T> S js(const T& v) { bool neg = v < 0; uint64_t a = neg ? 0 - (uint64_t)(int64_t)v : (uint64_t)v; int64_t x[5] = { neg, int64_t(a & 65535), int64_t((a >> 16) & 65535), int64_t((a >> 32) & 65535), int64_t(a >> 48) }; return J::arr(x, 5); }
template<> S js(const S& v) { return jbytes(v); }
template<> S js(const bool& v) { return v ? "[1]" : "[0]"; }
template<class T> S js(const std::vector<T>& v) { std::vector<S> t; for (size_t i = 0; i < v.size(); i++) t.push_back(js<T>(v[i])); return jlist(t); }
template<class T> int ty() { return int(sizeof(T) * 80 + (T(-1) < T(0))); }
template<> int ty<S>() { return 0; }
typedef cybozu::Option Opt;
struct V { virtual ~V() {} virtual S val() = 0; virtual bool set(Opt& o) = 0; virtual int type() = 0; virtual bool list() { return false; } virtual void addOpt(Opt& o, const char *n, bool must) = 0; virtual void addVec(Opt& o, const char *n) = 0; virtual void addParam(Opt& o, bool opt) = 0; virtual void addRest(Opt& o) = 0; };
template<class T> T defv(); template<> S defv<S>() { return R.chance(1, 2) ? "dflt" : ""; }
template<class T> T defv() { return T(R.below(100)); }
template<class T> struct VT : V { // one variable: scalar x or list v
	T x; std::vector<T> v; bool isVec; VT() : x(), isVec(false) {}
	S val() { return isVec ? js(v) : js(x); } bool set(Opt& o) { return isVec ? o.isSet(&v) : o.isSet(&x); } int type() { return ty<T>(); } bool list() { return isVec; }
	void addOpt(Opt& o, const char *n, bool must) { if (must) o.appendMust(&x, n, ": h"); else o.appendOpt(&x, defv<T>(), n, ": h"); }
	void addVec(Opt& o, const char *n) { isVec = true; o.appendVec(&v, n); }
	void addParam(Opt& o, bool opt) { x = defv<T>(); if (opt) o.appendParamOpt(&x, defv<T>(), "p"); else o.appendParam(&x, "p"); }
	void addRest(Opt& o) { isVec = true; o.appendParamVec(&v, "rest"); }
};
struct VB : V { bool x; S val() { return js(x); } bool set(Opt& o) { return o.isSet(&x); } int type() { return 0; } void addOpt(Opt& o, const char *n, bool) { o.appendBoolOpt(&x, n); } void addVec(Opt&, const char *) {} void addParam(Opt&, bool) {} void addRest(Opt&) {} };
V *mk() { switch (R.below(12)) { case 0: case 1: case 2: return new VT<S>; case 3: case 4: return new VT<int>; case 5: return new VT<unsigned>; case 6: return new VT<long long>; case 7: return new VT<unsigned long>; case 8: return new VT<int8_t>; case 9: return new VT<uint8_t>; case 10: return new VT<int16_t>; default: return new VT<uint16_t>; } }
void badDecl(Log& L) {
	L.about("declare"); Opt o; int x, y; S s; SV v; bool th = false;
	try { switch (R.below(5)) { case 0: o.appendOpt(&x, 1, "n"); o.appendMust(&y, "n"); break; case 1: o.appendOpt(&x, 1, "3n"); break; case 2: o.appendParamOpt(&s, "", "a"); o.appendParam(&x, "b"); break; case 3: o.appendParamVec(&v, "a"); o.appendParamOpt(&s, "", "b"); break; default: o.appendParamVec(&v, "a"); o.appendParam(&s, "b"); } } catch (cybozu::Exception&) { th = true; }
	L.ev(J("badDecl").b("thrown", th));
}
static long said0; static void mark() { fflush(stdout); said0 = ftell(stdout); }
static S saidText() { fflush(stdout); long e = ftell(stdout); S s(e - said0, 0); FILE *f = fopen(outName.c_str(), "rb"); if (!f) return s; fseek(f, said0, SEEK_SET); size_t n = s.empty() ? 0 : fread(&s[0], 1, s.size(), f); s.resize(n); fclose(f); return s; }
void session(Log& L, const SV& args0, bool full) {
	SV args = args0; Opt o; std::vector<V*> all; static const char *nm[] = { "f", "n", "m", "v", "long-name", "vv", "-x", "F" }; static const char kind[] = "f1mv";
	std::vector<S> od, pd; std::vector<V*> ov, pv; V *rest = 0;
	L.start(); if (R.chance(1, 10)) badDecl(L); L.about("declare");
	int nopt = full ? 4 : R.below(9);
	for (int i = 0; i < nopt; i++) { char k = full || R.chance(1, 2) ? kind[i % 4] : kind[R.below(4)]; V *v = k == 'f' ? new VB : mk(); all.push_back(v); if (k == 'v') v->addVec(o, nm[i]); else v->addOpt(o, nm[i], k == 'm'); ov.push_back(v); od.push_back(J().bytes("n", S(nm[i])).str("k", k == 'f' ? "flag" : k == '1' ? "one" : k == 'm' ? "must" : "vec").n("ty", v->type()).raw("def", v->val()).end()); }
	const char *pm[] = { "exact", "optional", "variable" }; int mode = R.below(3), np = R.below(3); if (mode == 1) np++;
	for (int i = 0; i < np; i++) { V *v = mk(); all.push_back(v); v->addParam(o, mode == 1 && i == np - 1); pv.push_back(v); pd.push_back(J().n("ty", v->type()).raw("def", v->val()).end()); }
	if (mode == 2) { rest = mk(); all.push_back(rest); rest->addRest(o); }
	SV tail, delims; bool hasTail = false; if (R.chance(1, 2)) { delims.push_back(R.chance(3, 4) ? "--" : ","); hasTail = R.chance(3, 4); if (hasTail) o.setDelimiter(delims[0], &tail); else o.appendDelimiter(delims[0]); if (R.chance(1, 8)) { o.clearDelimiterList(); delims.clear(); tail.clear(); if (R.chance(1, 2)) { delims.push_back("::"); o.appendDelimiter("::"); } } else if (!hasTail && R.chance(1, 3)) { delims.push_back("::"); o.appendDelimiter("::"); } }
	int start = R.chance(1, 4) ? 2 + R.below(2) : 1; SV argv; argv.push_back("/bin/prog"); for (int i = 1; i < start; i++) argv.push_back(R.chance(1, 2) ? "sub" : "-zz"); argv.insert(argv.end(), args.begin(), args.end());
	std::vector<char*> ap; for (size_t i = 0; i < argv.size(); i++) { char *p = (char*)malloc(argv[i].size() + 1); memcpy(p, argv[i].c_str(), argv[i].size() + 1); ap.push_back(p); }
	J dd; dd.raw("opts", jlist(od)).raw("params", jlist(pd)).str("pmode", pm[mode]).n("rty", rest ? rest->type() : 0).raw("delims", jbytesList(delims));
	bool help = R.chance(1, 9); if (help) o.appendHelp("h"); dd.bytes("help", S(help ? "h" : "")); const S dj = dd.end();
	if (help) { L.about("help"); mark(); fflush(0); pid_t pid = fork(); if (pid == 0) { o.parse((int)ap.size(), &ap[0], start); _exit(77); } int st = 0; waitpid(pid, &st, 0); fseek(stdout, 0, SEEK_END); bool ended = !(WIFEXITED(st) && WEXITSTATUS(st) == 77); L.ev(J("help").raw("d", dj).raw("args", jbytesList(args)).b("ended", ended).n("status", WIFEXITED(st) ? WEXITSTATUS(st) : -1).bytes("text", saidText())); if (ended) { for (size_t i = 0; i < ap.size(); i++) free(ap[i]); for (size_t i = 0; i < all.size(); i++) delete all[i]; L.end(); return; } }
	L.about("parse"); mark(); bool ok = start == 1 && R.chance(1, 2) ? o.parse((int)ap.size(), &ap[0]) : o.parse((int)ap.size(), &ap[0], start);
	J j("parse"); std::vector<S> dl; const S said = saidText(); j.raw("d", dj).b("said", !said.empty());
	j.raw("args", jbytesList(args)).b("ok", ok).n("start", start).b("hasTail", hasTail);
	std::vector<S> a, b, c, d; if (ok) { for (size_t i = 0; i < ov.size(); i++) { a.push_back(ov[i]->val()); b.push_back(ov[i]->set(o) ? "true" : "false"); } for (size_t i = 0; i < pv.size(); i++) { c.push_back(pv[i]->val()); d.push_back(pv[i]->set(o) ? "true" : "false"); } }
	L.ev(j.raw("ov", jlist(a)).raw("os", jlist(b)).raw("pv", jlist(c)).raw("ps", jlist(d)).raw("rest", ok && rest ? rest->val() : S("[]")).n("next", o.getNextPositionOfDelimiter()).raw("tail", jbytesList(tail)));
	if (ok && R.chance(1, 3)) { // current values as text
		bool small = false; for (size_t i = 0; i < all.size(); i++) if (all[i]->list() && all[i]->type() / 10 == 8) small = true;
		if (!small) { std::ostringstream os; os << o; L.ev(J("show").raw("d", dj).raw("args", jbytesList(args)).bytes("text", os.str())); } }
	if (R.chance(1, 8)) { mark(); o.usage(); L.ev(J("usage").raw("d", dj).bytes("text", saidText())); }
	if (R.chance(1, 8)) { int other; bool th = false; try { o.isSet(&other); } catch (cybozu::Exception&) { th = true; } L.ev(J("unknown").b("thrown", th).b("rest", rest && ok ? rest->set(o) : false).b("hasRest", rest && ok)); }
	for (size_t i = 0; i < ap.size(); i++) free(ap[i]); for (size_t i = 0; i < all.size(); i++) delete all[i]; L.end();
}
S number() {
	static const char *mx[] = { "127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1", "0", "12", "x" };
	static const char *kk[] = { "2147483", "2147484", "2097151", "2097152", "2097153", "4294967", "4294968", "4194303", "4194304", "2147", "2148", "2047", "2048", "4095", "4096", "9223372036854775", "9223372036854776", "9007199254740991", "9007199254740992", "18014398509481983", "18014398509481984", "18446744073709551", "18446744073709552", "63", "64", "32", "33", "0" };
	S s; if (R.chance(1, 6)) { s = R.chance(1, 8) ? "0X" : "0x"; size_t n = R.below(18); for (size_t i = 0; i < n; i++) s += i == 0 ? "1678fF"[R.below(6)] : "0123456789abcdefFgx"[R.chance(1, 9) ? R.below(19) : R.below(17)]; return s; }
	if (R.chance(1, 2)) { s = kk[R.below(28)]; s += "kmgKMG"[R.below(6)]; } else { s = mx[R.below(20)]; if (R.chance(1, 4)) s += "kmgKMGxT"[R.below(8)]; }
	if (R.chance(1, 4)) s = "-" + s; if (R.chance(1, 20)) s += "k"; return s;
}
template<class T> void conv1(Log& L, const S& s) { T x = 0; L.about("convert"); bool ok = cybozu::option_local::convert(&x, s.c_str()); L.ev(J("conv").n("ty", ty<T>()).bytes("s", s).b("ok", ok).raw("v", js<T>(x))); }
void conv(Log& L) { L.start(); for (int i = 0; i < 12; i++) { S s = number(); switch (R.below(10)) { case 0: conv1<int8_t>(L, s); break; case 1: conv1<uint8_t>(L, s); break; case 2: conv1<int16_t>(L, s); break; case 3: conv1<uint16_t>(L, s); break; case 4: conv1<int>(L, s); break; case 5: conv1<unsigned>(L, s); break; case 6: conv1<long>(L, s); break; case 7: conv1<unsigned long>(L, s); break; case 8: conv1<long long>(L, s); break; default: conv1<unsigned long long>(L, s); } } L.end(); }
void bigAll(Log& L, const Args& a) { std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 600000 : 140000); for (size_t q = 0; q < z.size(); q++) { size_t n = z[q]; L.start(); L.about("big"); std::vector<S> w; w.push_back("prog"); S lo(n, 'x'); w.push_back("-s"); w.push_back(lo); w.push_back("-v"); std::vector<int> want; for (size_t i = 0; i < n; i++) { char b[32]; int k = (int)(i * 7919 % 1000003); snprintf(b, sizeof(b), "%d", k); w.push_back(b); want.push_back(k); } w.push_back("-f"); w.push_back("end"); w.push_back("--"); for (size_t i = 0; i < 5; i++) w.push_back("t"); std::vector<const char*> p; for (size_t i = 0; i < w.size(); i++) p.push_back(w[i].c_str()); Opt o; S s, e; std::vector<int> v; bool f; SV tail; o.appendOpt(&s, "", "s", ": h"); o.appendVec(&v, "v"); o.appendBoolOpt(&f, "f"); o.appendParam(&e, "end"); o.setDelimiter("--", &tail); bool ok = o.parse((int)p.size(), &p[0]); bigEvent(L, "vec", n, v.size(), ok && v == want && f && e == "end" && tail.size() == 5); bigEvent(L, "long", n, s.size(), s == lo); bigEvent(L, "next", n + 7, o.getNextPositionOfDelimiter(), true);
	Opt o2; SV rest; o2.appendParamVec(&rest, "r"); SV w2; w2.push_back("prog"); for (size_t i = 0; i < n; i++) w2.push_back(w[4 + i]); p.clear(); for (size_t i = 0; i < w2.size(); i++) p.push_back(w2[i].c_str()); ok = o2.parse((int)p.size(), &p[0]); bigEvent(L, "rest", n, rest.size(), ok && SV(w2.begin() + 1, w2.end()) == rest); L.end(); } }
int main(int argc, char **argv) {
	Args a(argc, argv); outName = S(a.out) + ".said"; freopen(outName.c_str(), "w", stdout);
Rng r(a.seed); gR = &r; Log L(a.out);
	std::vector<std::vector<int> > sc = loadScript(a.script);
	static const char *tk[] = { "", "-f", "-n", "-m", "-v", "1", "x", "-2", "--" };
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { SV t; for (int k = 0; k < sc[i][0]; k++) t.push_back(tk[sc[i][1 + k]]); session(L, t, true); }
	for (int i = 0; i < 500 * a.effort; i++) {
		SV t; int n = R.below(9); if (R.chance(1, 2)) { t.push_back("-m"); t.push_back("1"); }
		while (n--) switch (R.below(10)) { case 0: t.push_back("-f"); break; case 1: t.push_back("-n"); t.push_back(number()); break; case 2: { static const char *o[] = { "-m", "-v", "-long-name", "-vv", "--x", "-F", "-n", "-h", "-", "-mm", "--" }; t.push_back(o[R.below(11)]); break; } case 3: t.push_back("-v"); t.push_back("3"); t.push_back("4"); break; case 4: t.push_back(R.chance(1, 2) ? "--" : ","); break; case 5: t.push_back(number()); break; case 6: t.push_back(R.chance(1, 2) ? "" : "file name"); break; default: t.push_back(S(1 + R.below(3), char('0' + R.below(10)))); }
		session(L, t, R.chance(1, 4));
	}
	for (int i = 0; i < 300 * a.effort; i++) conv(L);
	fflush(stdout); unlink(outName.c_str());
	bigAll(L, a);
	return 0;
}
