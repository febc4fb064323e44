// P19: string_operation.hpp
#include <string.h>
#include <iostream>
#include <cybozu/string_operation.hpp>
#include "verif.hpp"
using namespace verif;
typedef cybozu::Char C; typedef cybozu::String U; typedef std::string S; typedef std::vector<int> V;
static Rng *gR;
#define R (*gR)
static V V_(const S& s) { V v; for (size_t i = 0; i < s.size(); i++) v.push_back((unsigned char)s[i]); return v; }
static V V_(const U& s) { return V(s.begin(), s.end()); }
template<class T> T mk(const V& v) { T t; for (size_t i = 0; i < v.size(); i++) t.push_back(typename T::value_type(v[i])); return t; }
template<class T> const char *uni(); template<> const char *uni<S>() { return "false"; } template<> const char *uni<U>() { return "true"; }
static bool xsp(char c) { return c == 'x' || c == '.'; } static bool xspU(C c) { return c == 'x' || c == '.'; }
template<class T> struct Pred; template<> struct Pred<S> { static bool (*f())(char) { return xsp; } }; template<> struct Pred<U> { static bool (*f())(C) { return xspU; } };
template<class T> std::string jl(const T& v) { std::vector<std::string> t; for (typename T::const_iterator i = v.begin(); i != v.end(); ++i) { V x = V_(*i); t.push_back(J::arr(x.empty() ? (int*)0 : &x[0], x.size())); } return jlist(t); }
template<class T> J ev(const char *op, const V& s) { J j(op); j.raw("u", uni<T>()).nums("s", s); return j; }
static const char PAT[] = "Ab"; 
template<class T> void one(Log& L, const V& v, const V& q, int op) {
	typedef typename T::value_type K; T s = mk<T>(v), p = mk<T>(q); L.about("op"); char b[32]; snprintf(b, sizeof(b), "op %d", op); L.about(b);
	bool x = R.chance(1, 5); const char *sp = x ? "x" : "std";
	switch (op) {
	case 0: { T r = s; if (R.chance(1, 2)) { if (x) cybozu::Trim(r, Pred<T>::f()); else cybozu::Trim(r); } else r = x ? cybozu::TrimCopy(s, Pred<T>::f()) : cybozu::TrimCopy(s); L.ev(ev<T>("trim", v).str("sp", sp).nums("r", V_(r))); break; }
	case 1: { const K *a = s.data(), *e = a + s.size(); const K *r = x ? cybozu::SkipSpace(a, e, Pred<T>::f()) : cybozu::SkipSpace(a, e); L.ev(ev<T>("skip", v).str("sp", sp).n("r", r - a)); break; }
	case 2: case 3: { bool lo = op == 2; T pre = R.chance(1, 3) ? p : T(), r = pre; if (pre.empty() && R.chance(1, 2)) { r = s; if (lo) cybozu::ToLower(r); else cybozu::ToUpper(r); } else if (R.chance(1, 6)) { pre = s; r = s; if (lo) cybozu::ToLower(r, r, true); else cybozu::ToUpper(r, r, true); } else { bool app = R.chance(2, 3); if (!app) { r = p; pre = T(); } if (lo) cybozu::ToLower(r, s, app); else cybozu::ToUpper(r, s, app); } L.ev(ev<T>(lo ? "lower" : "upper", v).nums("pre", V_(pre)).nums("r", V_(r))); break; }
	case 4: { T r = s; cybozu::Strip(r); L.ev(ev<T>("strip", v).nums("r", V_(r))); break; }
	case 5: { int r = R.chance(1, 2) ? cybozu::CaseCompare(s, p) : cybozu::CaseCompare(s.data(), s.size(), p.data(), p.size()); L.ev(ev<T>("cmp", v).nums("p", q).n("r", r)); break; }
	case 6: { bool asc = true; for (size_t i = 0; i < q.size(); i++) if (q[i] >= 128 || q[i] == 0) asc = false; bool r; if (asc && R.chance(1, 2)) { S t = mk<S>(q); r = cybozu::CaseEqual(s, t.c_str()); } else r = cybozu::CaseEqual(s, p); L.ev(ev<T>("eq", v).nums("p", q).b("r", r)); break; }
	case 7: { bool r; V w; if (R.chance(1, 4)) { r = cybozu::CaseEqualStartWith(s, ""); } else if (R.chance(1, 2)) { r = cybozu::CaseEqualStartWith(s, "aB"); w.push_back('a'); w.push_back('B'); } else { r = cybozu::CaseEqualStartWith(s, "Z ,"); w.push_back('Z'); w.push_back(' '); w.push_back(','); } L.ev(ev<T>("starts", v).nums("p", w).b("r", r)); break; }
	case 8: { bool nz = true; for (size_t i = 0; i < q.size(); i++) if (q[i] == 0) nz = false; S t; if (sizeof(K) == 1) t = mk<S>(q); else t = mk<U>(q).toUtf8(); if (s.empty() && q.empty()) return; int64_t r; bool z = nz && R.chance(1, 2);
		if (R.chance(1, 2) && !s.empty()) { size_t k = cybozu::CaseFind<K>(s, t.c_str(), z ? 0 : t.c_str() + t.size()); r = k == S::npos ? -1 : (int64_t)k; } else { K *m = (K*)malloc(s.size() * sizeof(K) + 1); memcpy(m, s.data(), s.size() * sizeof(K)); const K *f = cybozu::CaseFind((const K*)m, (const K*)m + s.size(), t.c_str(), z ? 0 : t.c_str() + t.size()); r = f ? f - m : -1; free(m); } L.ev(ev<T>("find", v).nums("p", q).n("r", r)); break; }
	case 9: { int c = R.chance(3, 4) ? ',' : v.empty() ? 'a' : v[R.below(v.size())]; int max = R.chance(1, 2) ? 0x7fffffff : 1 + R.below(4); std::vector<T> o; std::vector<T> pre; size_t n; if (R.chance(1, 3)) { pre.push_back(p); o = pre; n = cybozu::Split(o, s, K(c), max, false); } else if (R.chance(1, 2)) { o.push_back(p); n = c == ',' && max == 0x7fffffff ? cybozu::Split(o, s) : cybozu::Split(o, s, K(c), max); } else { o = cybozu::Split(s, K(c), max); n = o.size(); } L.ev(ev<T>("split", v).n("c", c).n("max", max == 0x7fffffff ? 1000000 : max).raw("pre", jl(pre)).raw("r", jl(o)).n("n", n)); break; }
	default: { int c = R.chance(1, 2) && !v.empty() ? v[R.below(v.size())] : sizeof(K) == 1 ? R.below(256) : R.chance(1, 2) ? 0x2000 + R.below(0x70) : R.below(0x110000); bool r = cybozu::IsSpace(K(c)); L.ev(J("space").raw("u", uni<T>()).str("sp", "std").n("c", c).b("r", r)); }
	}
}
int ch(bool u) { static const int a[] = { ' ', '\t', 'a', 'B', 'Z', 'z', ',', '\n', '\r', 'x', '.', '@', '[', '`', '{', 'A', 'b', '0' }; static const int sp[] = { 9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680, 0x180e, 0x2000, 0x200a, 0x200b, 0x1fff, 0x2028, 0x2029, 0x202a, 0x202f, 0x205f, 0x3000, 0xfeff, 8, 14, 0x84, 0xa1, 0x167f, 0x2027, 0x3001, 0x10041, 0x10061, 0x141, 0x3042, 0xe000 }; if (R.chance(3, 4)) return a[R.below(18)]; return u ? sp[R.below(33)] : (R.chance(1, 2) ? R.below(256) : 128 + R.below(128)); }
template<class T> void bigOne(Log& L, size_t n) { typedef typename T::value_type K; L.start(); L.about("big"); std::string d = bigData(n, R.u64()); T s, lo, up; for (size_t i = 0; i < n; i++) { char c = "abzAZ,[`@ "[(unsigned char)d[i] % 10]; s.push_back(K(c)); lo.push_back(K(c >= 'A' && c <= 'Z' ? c + 32 : c)); up.push_back(K(c >= 'a' && c <= 'z' ? c - 32 : c)); }
	T r; cybozu::ToLower(r, s); bigEvent(L, "lower", n, r.size(), r == lo); r = s; cybozu::ToUpper(r); bigEvent(L, "upper", n, r.size(), r == up); r = T(); cybozu::ToUpper(r, s, true); cybozu::ToLower(r, s, true); T both = up; both += lo; bigEvent(L, "append", 2 * n, r.size(), r == both);
	size_t x = R.below(2) ? n : R.below(300), y = R.below(2) ? n : R.below(300); T w; w.resize(x, K(' ')); T mid = s; mid[0] = mid[n - 1] = K('q'); w += mid; w.resize(w.size() + y, K('\t')); r = cybozu::TrimCopy(w); bigEvent(L, "trimcopy", n, r.size(), r == mid); bigEvent(L, "skip", x, cybozu::SkipSpace(w.data(), w.data() + w.size()) - w.data(), true); r = w; cybozu::Trim(r); bigEvent(L, "trim", n, r.size(), r == mid); r = mid; r.resize(n + x, K('\n')); cybozu::Strip(r); bigEvent(L, "strip", n, r.size(), r == mid);
	T e = s; bigEvent(L, "compare", n, n, cybozu::CaseCompare(s, e) == 0 && cybozu::CaseCompare(lo, up) == 0 && cybozu::CaseEqual(lo, up)); e[n - 1] = K('|'); bigEvent(L, "less", n, n, cybozu::CaseCompare(s, e) == -1 && cybozu::CaseCompare(e, s) == 1 && !cybozu::CaseEqual(s, e)); e = s; e.resize(n - 1); bigEvent(L, "shorter", n, n, cybozu::CaseCompare(e, s) == -1 && cybozu::CaseCompare(s, e) == 1 && !cybozu::CaseEqual(s, e));
	T f; f.resize(n, K('a')); f.push_back(K('B')); f.push_back(K('c')); bigEvent(L, "find", n - 1, cybozu::CaseFind<K>(f, "Abc"), true); bigEvent(L, "miss", n, n, cybozu::CaseFind<K>(f, "aac") == std::string::npos);
	std::vector<T> o; T j; size_t k = cybozu::Split(o, s, K(',')), want = 1; for (size_t i = 0; i < n; i++) if (s[i] == K(',')) want++; for (size_t i = 0; i < o.size(); i++) { if (i) j.push_back(K(',')); j += o[i]; } bool clean = true; for (size_t i = 0; i < o.size(); i++) for (size_t q = 0; q < o[i].size(); q++) if (o[i][q] == K(',')) clean = false; bigEvent(L, "split", want, k, clean && j == s && o.size() == k); k = cybozu::Split(o, f, K(',')); bigEvent(L, "one", 1, k, o.size() == 1 && o[0] == f); L.end(); }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out);
	std::vector<std::vector<int> > sc = loadScript(a.script);
	L.start(); size_t cnt = 0;
	#define CUT if (++cnt % 25 == 0) { L.end(); L.start(); }
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { V v(sc[i].begin() + 1, sc[i].end()), q; size_t n = R.below(3); for (size_t k = 0; k < n; k++) q.push_back("aAzZ, \n"[R.below(7)]); for (int k = 0; k < 6; k++) { int op = R.below(11); if (R.chance(1, 2)) one<S>(L, v, q, op); else one<U>(L, v, q, op); } CUT }
	if (a.shard == 0) for (int c = 0; c < 0x3100; c++) { if (c > 0x200 && (c < 0x1670 || (c > 0x1690 && c < 0x1800) || (c > 0x1820 && c < 0x1ff0) || (c > 0x2070 && c < 0x2ff0))) continue; L.ev(J("space").raw("u", "true").str("sp", "std").n("c", c).b("r", cybozu::IsSpace(C(c)))); if (c < 256) { L.ev(J("space").raw("u", "false").str("sp", "std").n("c", c).b("r", cybozu::IsSpace(char(c)))); V v(1, c); one<S>(L, v, v, 2); one<S>(L, v, v, 3); one<U>(L, v, v, 2); one<U>(L, v, v, 3); } CUT }
	for (int i = 0; i < 2500 * a.effort; i++) { bool u = R.chance(1, 2); V v, q; size_t n = R.chance(1, 6) ? R.below(40) : R.below(9); const bool small = R.chance(1, 3); const char *al = R.chance(1, 2) ? "aAa" : R.chance(1, 2) ? "aAb" : "aB,"; if (small) n = R.below(12); for (size_t k = 0; k < n; k++) v.push_back(small ? al[R.below(3)] : ch(u)); if (R.chance(1, 2)) { q = v; for (size_t k = 0; k < q.size(); k++) if (R.chance(1, 2) && ((q[k] >= 'a' && q[k] <= 'z') || (q[k] >= 'A' && q[k] <= 'Z'))) q[k] ^= 32; if (R.chance(1, 3) && !q.empty()) q[R.below(q.size())] = ch(u); if (R.chance(1, 2)) { size_t o = R.below(q.size() + 1); q.erase(q.begin(), q.begin() + o); } if (R.chance(1, 2)) q.resize(R.below(q.size() + 1)); } else { n = R.below(small ? 6 : 4); for (size_t k = 0; k < n; k++) q.push_back(small ? (R.chance(1, 4) ? 'b' : al[R.below(3)]) : ch(u)); } int op = small ? 5 + R.below(5) : R.below(11); if (u) one<U>(L, v, q, op); else one<S>(L, v, q, op); CUT }
	L.end(); std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 1100000 : 140000); for (size_t i = 0; i < z.size(); i++) { bigOne<S>(L, z[i]); bigOne<U>(L, z[i]); } L.start(); L.ev(J("space").raw("u", "false").str("sp", "std").n("c", 32).b("r", cybozu::IsSpace(char(32))));
	L.end(); return 0;
}
