// P41: every operation on 128 bit words, and hash values of sequences of all element types
#include <list>
#include <deque>
#include <boost/functional/hash.hpp>
#include <cybozu/v128.hpp>
#include <cybozu/hash.hpp>
#include <cybozu/string.hpp>
#include "verif.hpp"
using namespace verif; using cybozu::V128; typedef std::string S;
static Rng *gR;
#define R (*gR)
struct W { uint8_t b[16]; };
static V128 in(const W& w) { union { uint8_t b[32]; uint32_t u[8]; }; uint32_t *p = (uint32_t*)(((uintptr_t)u + 15) & ~uintptr_t(15)); memcpy(p, w.b, 16); switch (R.below(4)) { case 0: return V128(p); case 1: { V128 v; v.load(p); return v; } case 2: { uint32_t q[5]; memcpy(q + 1, w.b, 16); V128 v; v.load_u(q + R.below(1) + 1); return v; } default: return V128(p[3], p[2], p[1], p[0]); } }
static S js(const V128& v) { uint32_t q[12]; uint32_t *p = (uint32_t*)(((uintptr_t)q + 15) & ~uintptr_t(15)); if (R.chance(1, 2)) v.store(p); else { p = q + 1; v.store_u(p); } return J::arr((const uint8_t*)p, 16); }
static S js(const W& w) { return J::arr(w.b, 16); }
static Log *gL;
static void vv(const char *f, const W& a, const W& b, int n, const V128& r) { gL->ev(J("v").str("f", f).raw("a", js(a)).raw("b", js(b)).n("n", n).raw("r", js(r))); }
#define V2(f) vv(#f, a, b, 0, cybozu::f(in(a), in(b)));
template<int n> struct Ops { static void go(const W& a, const W& b, int want) { if (want == n) one(a, b); else Ops<n - 1>::go(a, b, want); }
	static void one(const W& a, const W& b) { const int m = n & 15;
		vv("psrldq", a, b, m, cybozu::psrldq<m>(in(a))); vv("pslldq", a, b, m, cybozu::pslldq<m>(in(a))); vv("psrlq", a, b, n, cybozu::psrlq<n>(in(a))); vv("psllq", a, b, n, cybozu::psllq<n>(in(a))); W c; memset(c.b, 0, 16); c.b[0] = n; vv("psrlq", a, b, n, cybozu::psrlq(in(a), in(c))); vv("psllq", a, b, n, cybozu::psllq(in(a), in(c)));
		vv("palignr", a, b, n & 31, cybozu::palignr<(n & 31)>(in(a), in(b))); vv("pshufd", a, b, n * 4 + 3 * m & 255, cybozu::pshufd<(n * 4 + 3 * (n & 15) & 255)>(in(a))); if (n < 64) { V128 x = in(a); x.shrBit<(n < 64 ? n : 0)>(); vv("shrBit", a, b, n, x); x = in(a); x.shlBit<(n < 64 ? n : 0)>(); vv("shlBit", a, b, n, x); }
		const int i = n & 3; uint32_t d; memcpy(&d, b.b, 4); vv("pinsrd", a, b, i, cybozu::pinsrd<i>(in(a), d)); vv("pinsrb", a, b, m, cybozu::pinsrb<m>(in(a), b.b[0])); gL->ev(J("w").str("f", "pextrd").raw("a", js(a)).n("n", i).limbs("r", cybozu::pextrd<i>(in(a)), 2));
		W c3; for (int k = 0; k < 16; k++) c3.b[k] = (uint8_t)R.below(256); for (int left = 0; left < 2; left++) { const int q = (n % 17) ? n % 17 : 16; V128 x = in(a), y = in(b), z = in(c3); if (left) cybozu::rotlByte<q>(x, y, z); else cybozu::rotrByte<q>(x, y, z); gL->ev(J("rot").raw("a", js(a)).raw("b", js(b)).raw("c", js(c3)).n("n", q).b("left", left).raw("r", "[" + js(x) + "," + js(y) + "," + js(z) + "]")); } } };
template<> struct Ops<-1> { static void go(const W&, const W&, int) {} };
static void all(const W& a, const W& b, int n) { Log& L = *gL; L.start(); L.about("v128"); Ops<64>::go(a, b, n);
	V2(punpckhdq) V2(punpckhqdq) V2(punpckldq) V2(punpcklqdq) V2(unpcklps) V2(unpckhps) V2(paddd) V2(psubd) V2(pandn) V2(por) V2(pand) V2(pxor) V2(pmaxsd) V2(pminsd) V2(pmaxud) V2(pminud) V2(pcmpeqd) V2(pcmpgtd) V2(pshufb) V2(psadbw)
	{ W c = b; for (int k = 0; k < 16; k++) if (R.chance(2, 3)) c.b[k] = (uint8_t)R.below(20); vv("pshufb", a, c, 0, cybozu::pshufb(in(a), in(c))); }
#define N2(f) L.ev(J("n").str("f", #f).raw("a", js(a)).raw("b", js(b)).n("n", 0).n("r", cybozu::f(in(a), in(b))));
	N2(ptest_zf) N2(ptest_cf) L.ev(J("n").str("f", "pmovmskb").raw("a", js(a)).raw("b", js(b)).n("n", 0).n("r", cybozu::pmovmskb(in(a)))); L.ev(J("w").str("f", "movd").raw("a", js(a)).n("n", 0).limbs("r", cybozu::movd(in(a)), 2)); L.ev(J("w").str("f", "movq").raw("a", js(a)).n("n", 0).limbs("r", cybozu::movq(in(a))));
	uint32_t d; uint64_t q; memcpy(&d, a.b, 4); memcpy(&q, a.b, 8); uint32_t l[4]; memcpy(l, a.b, 16); V128 x = in(b); x.clear(); vv("clear", a, b, 0, x); vv("clear", a, b, 0, cybozu::Zero()); x = in(b); x.set(d); vv("all32", a, b, 0, x); x.set(l[3], l[2], l[1], l[0]); vv("same", a, b, 0, x); vv("same", a, b, 0, V128(in(a).to_ps())); V128 y(x); vv("same", a, b, 0, y); vv("first32", a, b, 0, V128(d)); vv("first64", a, b, 0, V128(q));
	for (int c = 0; c < 2; c++) { uint32_t t[12]; uint32_t *p = (uint32_t*)(((uintptr_t)t + 15) & ~uintptr_t(15)); memcpy(p, a.b, 16); memcpy(p + 4, b.b, 16); if (c) cybozu::copy128(p, p + 4); else cybozu::swap128(p, p + 4); L.ev(J("swap").b("copy", c).raw("a", js(a)).raw("b", js(b)).raw("a2", J::arr((uint8_t*)p, 16)).raw("b2", J::arr((uint8_t*)(p + 4), 16))); }
	L.end(); }
static S limbs(uint64_t v, int n) { J j; j.limbs("x", v, n); S s = j.end(); return s.substr(5, s.size() - 6); }
template<class T> void hash(const std::vector<T>& v) { Log& L = *gL; std::vector<S> l; for (size_t i = 0; i < v.size(); i++) l.push_back(limbs((uint64_t)v[i], 4)); uint32_t s32 = R.chance(1, 2) ? 0 : R.chance(1, 4) ? 1 : (uint32_t)R.u64(); uint64_t s64 = R.chance(1, 2) ? 0 : R.chance(1, 4) ? 1 : R.u64(); std::list<T> ls(v.begin(), v.end()); std::deque<T> dq(v.begin(), v.end()); const T *p = v.empty() ? 0 : &v[0];
	uint32_t r; switch (R.below(5)) { case 0: r = s32 ? cybozu::hash32(v.begin(), v.end(), s32) : cybozu::hash32(v.begin(), v.end()); break; case 1: r = cybozu::hash32(ls.begin(), ls.end(), s32); break; case 2: r = s32 ? cybozu::hash32(p, v.size(), s32) : cybozu::hash32(p, v.size()); break; case 3: r = cybozu::hash32(p, p + v.size(), s32); break; default: { size_t k = R.below(v.size() + 1); uint32_t h = cybozu::hash32(dq.begin(), dq.begin() + k, s32); r = cybozu::hash32(p + k, v.size() - k, h); if (h == 0) return; } } L.ev(J("h32").raw("l", jlist(l)).raw("v", limbs(s32, 2)).raw("r", limbs(r, 2)));
	uint64_t q; switch (R.below(4)) { case 0: q = s64 ? cybozu::hash64(v.begin(), v.end(), s64) : cybozu::hash64(v.begin(), v.end()); break; case 1: q = cybozu::hash64(ls.begin(), ls.end(), s64); break; case 2: q = s64 ? cybozu::hash64(p, v.size(), s64) : cybozu::hash64(p, v.size()); break; default: q = cybozu::hash64(dq.begin(), dq.end(), s64); } L.ev(J("h64").raw("l", jlist(l)).raw("v", limbs(s64, 4)).raw("r", limbs(q, 4))); }
template<class T> void hashes() { std::vector<T> v; size_t n = R.chance(1, 20) ? 200 : R.below(12); for (size_t i = 0; i < n; i++) v.push_back(R.chance(1, 6) ? T(-1) : R.chance(1, 6) ? T(0) : R.chance(1, 3) ? T(R.below(128)) : T(R.u64())); hash(v); }
void bigHash(Log& L, const Args& a) { std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 17000000 : 2200000); for (size_t q = 0; q < z.size(); q++) { size_t n = z[q]; L.start(); L.about("big"); S d = bigData(n, R.u64()); const uint8_t *p = (const uint8_t*)d.data(); uint32_t h = 2166136261u; uint64_t g = 14695981039346656037ull; for (size_t i = 0; i < n; i++) { h = (h ^ p[i]) * 16777619u; g = (g ^ p[i]) * 1099511628211ull; } g ^= g >> 32; bigEvent(L, "hash32", n, n, cybozu::hash32(p, n) == h && cybozu::hash32(p, p + n) == h); bigEvent(L, "hash64", n, n, cybozu::hash64(p, n) == g && cybozu::hash64(p, p + n) == g); L.end(); } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out); gL = &L; std::vector<std::vector<int> > sc = loadScript(a.script);
	static const uint32_t lv[] = { 0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x04030201 };
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i) && (a.effort > 1 || R.chance(1, 3))) { const std::vector<int>& p = sc[i]; uint32_t w[4], z[4]; w[0] = w[3] = lv[p[0] - 1]; w[1] = lv[p[1] - 1]; w[2] = lv[p[0] % 6]; z[0] = z[3] = lv[p[2] - 1]; z[1] = lv[p[0] - 1]; z[2] = lv[p[2] % 6]; W x, y; memcpy(x.b, w, 16); memcpy(y.b, z, 16); all(x, y, p[3]); }
	for (int n = 0; n < 65; n++) if (a.mine(n)) for (int k = 0; k < 1 + a.effort; k++) { W x, y; for (int i = 0; i < 16; i++) { x.b[i] = R.chance(1, 5) ? 255 * R.below(2) : (uint8_t)R.below(256); y.b[i] = R.chance(1, 3) ? x.b[i] : (uint8_t)R.below(256); } all(x, y, n); }
	for (int i = 0; i < 60 * a.effort; i++) { L.start(); L.about("hash"); hashes<char>(); hashes<uint8_t>(); hashes<signed char>(); hashes<uint16_t>(); hashes<short>(); hashes<int>(); hashes<uint32_t>(); hashes<uint64_t>(); hashes<cybozu::Char>();
		cybozu::String s; std::vector<S> l; int n = R.below(8); while (n--) { cybozu::Char c = R.chance(1, 6) ? 0 : (cybozu::Char)R.below(0x10ffff); s += c; l.push_back(limbs((uint64_t)c, 4)); } size_t h = R.chance(1, 2) ? std::hash<cybozu::String>()(s) : boost::hash<cybozu::String>()(s); L.ev(J("h64").raw("l", jlist(l)).raw("v", "[0,0,0,0]").raw("r", limbs(h, 4))); L.end(); }
	bigHash(L, a);
	return 0;
}
