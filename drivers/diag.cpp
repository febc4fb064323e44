// P36: format, exception, error numbers, logger
#include "diag.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <cybozu/log.hpp>
#include <cybozu/format.hpp>
#include <cybozu/exception.hpp>
#include "verif.hpp"
using namespace verif; typedef std::string S;
static Rng *gR;
#define R (*gR)
S rle(const S& s) { std::vector<S> v; for (size_t i = 0; i < s.size();) { size_t j = i; while (j < s.size() && s[j] == s[i]) j++; v.push_back("[" + J::num((unsigned char)s[i]) + "," + J::num(j - i) + "]"); i = j; } return jlist(v); }
S text(bool big) { S s; int n = R.below(5); for (int i = 0; i < n; i++) { char c = R.chance(1, 6) ? '%' : R.chance(1, 8) ? (char)(128 + R.below(127)) : (char)(33 + R.below(90)); size_t k = 1 + R.below(R.chance(1, 2) ? 2 : 12); if (big && R.chance(1, 5)) { static const size_t b[] = { 15, 16, 31, 63, 64, 127, 128, 255, 256, 511, 1023, 1024, 1025, 4095, 4096, 8192, 65535, 65536, 100000, 1 << 20 }; k = b[R.below(20)] - (R.chance(1, 2) ? s.size() % 3 : 0) + R.below(2); } s.append(k, c); } return s; }
struct P { const char *k; S s; int v; S js() const { J j; j.str("k", k); if (k[0] == 'd') j.n("v", v); else j.raw("r", rle(s)); if (k[1] == 's') j.n("w", v); return j.end(); } };
void vf(S& o, const char *f, ...) { va_list a; va_start(a, f); cybozu::vformat(o, f, a); va_end(a); }
void fmt(Log& L) { S a = text(true), b = text(true), c = text(false), d = text(false); int x = R.chance(1, 4) ? (R.chance(1, 2) ? 2147483000 : -1900000000) : (int)R.range(-100000, 100000), w = R.below(R.chance(1, 3) ? 3000 : 30); std::vector<P> p; S r; bool into = R.chance(1, 2); S o = R.chance(1, 3) ? S() : text(true); L.about("format");
#define ADD(K, Sx, V) { P q; q.k = K; q.s = Sx; q.v = V; p.push_back(q); }
#define RUN(...) { int h = R.below(3); if (h == 0) r = cybozu::format(__VA_ARGS__); else if (h == 1) { r = o; cybozu::format(r, __VA_ARGS__); } else { r = o; vf(r, __VA_ARGS__); } }
	switch (R.below(8)) { case 0: ADD("s", a, 0) RUN("%s", a.c_str()) break;
	case 1: ADD("s", a, 0) ADD("lit", "-", 0) ADD("s", b, 0) RUN("%s-%s", a.c_str(), b.c_str()) break;
	case 2: ADD("lit", "x=", 0) ADD("d", "", x) ADD("lit", ",%,", 0) ADD("s", a, 0) ADD("lit", "\n", 0) RUN("x=%d,%%,%s\n", x, a.c_str()) break;
	case 3: ADD("ws", a, w) ADD("lit", "|", 0) ADD("ls", b, w) RUN("%*s|%-*s", w, a.c_str(), w, b.c_str()) break;
	case 4: RUN("%s", "") break;
	case 5: { S f; for (size_t i = 0; i < a.size(); i++) { f += a[i]; if (a[i] == '%') f += '%'; } ADD("lit", a, 0) RUN(f.c_str(), 0) } break;
	case 6: { r = a; cybozu::format(r, "%s:%s", r.c_str(), b.c_str()); ADD("s", a, 0) ADD("lit", ":", 0) ADD("s", b, 0) } break; // the result replaces its own argument
	default: ADD("d", "", x) ADD("s", a, 0) ADD("d", "", w) ADD("s", b, 0) ADD("s", c, 0) ADD("s", d, 0) ADD("lit", "end", 0) RUN("%d%s%d%s%s%send", x, a.c_str(), w, b.c_str(), c.c_str(), d.c_str()) }
	(void)into; std::vector<S> ps; for (size_t i = 0; i < p.size(); i++) ps.push_back(p[i].js()); L.ev(J("format").raw("ps", jlist(ps)).raw("r", rle(r))); }
void exc(Log& L) { S name = R.chance(1, 5) ? S() : text(false); L.about("Exception"); std::vector<S> it; int n = R.below(7); S t, w, c; try { cybozu::Exception e(name); for (int i = 0; i < n; i++) { J j; switch (R.below(6)) { case 0: { S s = text(false); e << s.c_str(); j.str("k", "s").bytes("b", s); } break; case 1: { S s = text(false); if (R.chance(1, 8)) s.assign(5000, 'q'); e << s; j.str("k", "s").bytes("b", s); } break; case 2: { int x = (int)R.range(-1000000, 1000000); e << x; j.str("k", "d").n("v", x); } break; case 3: { char ch = (char)(33 + R.below(90)); e << ch; j.str("k", "s").bytes("b", S(1, ch)); } break; case 4: { size_t x = R.below(1 << 30); e << x; j.str("k", "d").n("v", x); } break; default: { char b[8]; strcpy(b, "arr"); e << b << "lit"; j.str("k", "s").bytes("b", S("arr")); it.push_back(j.end()); j = J(); j.str("k", "s").bytes("b", S("lit")); } } it.push_back(j.end()); } if (R.chance(1, 2)) { cybozu::Exception f(e); e << 1; cybozu::Exception g; g = f; throw g; } throw e; } catch (std::exception& e) { w = e.what(); cybozu::Exception *x = dynamic_cast<cybozu::Exception*>(&e); t = x ? x->toString() : S("?"); cybozu::Exception y(*x); c = y.what(); }
	L.ev(J("exc").bytes("name", name).raw("items", jlist(it)).bytes("r", t).bytes("what", w).bytes("copy", c)); }
void err(Log& L) { int v = R.chance(1, 10) ? 0 : R.chance(1, 5) ? (int)R.range(-5, 5000) : R.below(135); L.about("ErrorNo"); char lb[256]; S lib = strerror_r(v, lb, sizeof(lb)); S t, late; switch (R.below(3)) { case 0: { errno = v; cybozu::ErrorNo e; errno = 3; t = e.toString(); std::ostringstream os; os << e; late = os.str(); } break; case 1: { cybozu::ErrorNo e(v); errno = v + 1; t = e.toString(); late = e.toString(); } break; default: errno = 5; t = late = cybozu::ConvertErrorNoToString(v); } L.ev(J("errno").n("v", v).bytes("lib", lib).bytes("t", t).bytes("late", late)); }
S slurp(const char *f) { S r; int fd = open(f, O_RDONLY); if (fd < 0) return r; char b[4096]; ssize_t n; while ((n = ::read(fd, b, sizeof(b))) > 0) r.append(b, n); close(fd); return r; }
static int fdCount() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; struct dirent *e; while ((e = readdir(d)) != 0) { int fd = atoi(e->d_name); char l[600], p[64]; snprintf(p, sizeof(p), "/proc/self/fd/%d", fd); ssize_t k = e->d_name[0] == '.' ? -1 : readlink(p, l, sizeof(l) - 1); if (k > 0) { l[k] = 0; if (strstr(l, "/lg1.") || strstr(l, "/lg2.")) n++; } } closedir(d); return n; }
static char fn[5][64]; static FILE *mine, *full; static S last[5];
struct Lg { Log& L; Lg(Log& L_, bool first) : L(L_) { L.start(); if (!first) { pri(R.below(4)); ms(R.chance(1, 2)); set(R.below(4)); if (R.chance(1, 3)) sys(R.chance(1, 2)); } } ~Lg() { L.end(); }
	void open(int f) { bool ok = true; L.about("OpenLogFile"); try { cybozu::OpenLogFile(f == 9 ? "nosuchdir/x" : fn[f]); } catch (std::exception&) { ok = false; } L.ev(J("open").n("f", f).b("ok", ok)); }
	void set(int f) { L.about("SetLogFILE"); cybozu::SetLogFILE(f == 0 ? 0 : f == 3 ? mine : f == 4 ? stderr : f == 5 ? full : mine); L.ev(J("set").n("f", f == 1 || f == 2 ? 3 : f)); }
	void sys(bool b) { cybozu::useSyslog(b); L.ev(J("usesys").b("b", b)); } void pri(int p) { cybozu::SetLogPriority((cybozu::LogPriority)p); L.ev(J("pri").n("p", p)); } void ms(bool b) { if (b && R.chance(1, 2)) cybozu::SetLogUseMsec(); else cybozu::SetLogUseMsec(b); L.ev(J("ms").b("b", b)); }
	void put(int p) { diag::nowSec = R.chance(1, 3) ? R.below(2000000000) : 1700000000 + R.below(100000); diag::nowMs = R.chance(1, 4) ? 0 : R.below(1000); S t = text(false); if (R.chance(1, 20)) t.append(3000, 'z'); int num = R.below(1000); diag::sysl.clear(); L.about("PutLog"); diag::fake = true; S w = t; cybozu::LogPriority pr = (cybozu::LogPriority)p; char nb[16]; snprintf(nb, sizeof(nb), "%d", num);
		switch (R.below(4)) { case 0: cybozu::PutLog(pr, "%s", t.c_str()); break; case 1: cybozu::PutLog(pr, "%d,%s!", num, t.c_str()); w = S(nb) + "," + t + "!"; break; case 2: if (p == 1 && R.chance(1, 2)) cybozu::Log() << t << num; else cybozu::Log(pr) << t << num; w = t + nb; break; default: { cybozu::Log l(pr); l << "["; l << num << ']' << t.c_str(); w = S("[") + nb + "]" + t; } }
		diag::fake = false; bool lost = false; std::vector<S> d; for (int i = 1; i < 5; i++) { S now = slurp(fn[i]); if (now.size() < last[i].size() || now.compare(0, last[i].size(), last[i])) lost = true; else d.push_back(jbytes(now.substr(last[i].size()))); if (lost) d.push_back("[]"); if (now.size() > 200000 && 0) now.clear(); last[i] = now; }
		std::vector<S> sl; for (size_t i = 0; i < diag::sysl.size(); i++) sl.push_back(J().n("p", diag::sysl[i].p).bytes("t", diag::sysl[i].t).end());
		L.ev(J("put").n("p", p).n("n", diag::nowSec / 86400).n("s", diag::nowSec % 86400).n("m", diag::nowMs).bytes("text", w).raw("d", jlist(d)).raw("sys", jlist(sl)).b("lost", lost)); }
	void own() { L.about("own"); bool alive = true; if (mine) { S was = slurp(fn[3]); fputs("mine\n", mine); fflush(mine); last[3] = slurp(fn[3]); alive = last[3] == was + "mine\n"; } L.ev(J("own").n("fds", fdCount()).b("alive", alive)); }
	void trimAll() { for (int i = 1; i < 5; i++) if (last[i].size() > 20000) { truncate(fn[i], 0); last[i].clear(); } }
	void step() { switch (R.below(12)) { case 0: open(R.chance(1, 4) ? 9 : 1 + R.below(2)); break; case 1: set(R.chance(1, 4) ? 5 : R.chance(1, 3) ? 4 : 3 * R.below(2)); break; case 2: sys(R.chance(1, 2)); break; case 3: pri(R.below(4)); break; case 4: ms(R.chance(1, 2)); break; case 5: own(); break; default: put(R.below(4)); } } };
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out, 60); std::vector<std::vector<int> > sc = loadScript(a.script);
	const char *nm[] = { "", "lg1", "lg2", "mine", "err" }; for (int i = 1; i < 5; i++) { snprintf(fn[i], sizeof(fn[i]), "%s.%d", nm[i], (int)getpid()); unlink(fn[i]); } int keep = dup(2), ef = open(fn[4], O_WRONLY | O_CREAT | O_APPEND, 0600); dup2(ef, 2); close(ef); mine = fopen(fn[3], "ab"); full = fopen("/dev/full", "wb");
	if (!mine || !full) exit(2);
	{ Lg g(L, true); if (R.chance(1, 2)) g.own(); for (int p = 0; p < 4; p++) g.put(p); for (int i = 0; i < 20; i++) g.step(); }
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { Lg g(L, false); for (size_t j = 0; j + 1 < sc[i].size(); j += 2) { int x = sc[i][j + 1]; switch (sc[i][j]) { case 0: g.open(x); break; case 1: g.set(x); break; case 2: g.sys(x); break; case 3: g.pri(x); break; default: g.ms(x); } } g.put(R.below(4)); g.put(R.below(4)); if (R.chance(1, 3)) g.own(); g.trimAll(); }
	for (int i = 0; i < 40 * a.effort; i++) { Lg g(L, false); for (int k = 0; k < 20; k++) g.step(); g.own(); g.trimAll(); }
	for (int i = 0; i < 20 * a.effort; i++) { L.start(); for (int k = 0; k < 20; k++) { fmt(L); exc(L); err(L); } L.end(); }
	cybozu::SetLogFILE(0); for (int i = 1; i < 5; i++) unlink(fn[i]); fflush(0); dup2(keep, 2); _exit((L.flush(), 0));
}
