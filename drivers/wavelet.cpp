// P08: wavelet matrix
#include <cybozu/wavelet_matrix.hpp>
#include <cybozu/csucvector.hpp>
#include <sstream>
#include <algorithm>
#include "verif.hpp"
using namespace verif;
static Rng *gR;
#define R (*gR)
int64_t np(uint64_t x) { return x == cybozu::NotFound ? -1 : (int64_t)std::min<uint64_t>(x, 0x7fffffff); }
template<class WM> struct HasSel { static const bool v = true; };
typedef cybozu::WaveletMatrixT<false> WNo; typedef cybozu::WaveletMatrixT<true, cybozu::SucVector> W64; typedef cybozu::WaveletMatrixT<true, cybozu::CSucVector> WC;
template<> struct HasSel<WNo> { static const bool v = false; };
template<class WM, class Vec> void session(Log& L, WM& wm, const Vec& vals, int w) {
	L.start(); L.about("init");
	wm.init(vals, w); L.ev(J("init").n("w", w).raw("vals", J::arr(vals.data(), vals.size())));
	for (int pass = 0; pass < 2; pass++) {
		L.about("query"); const size_t n = vals.size();
		L.ev(J("size").n("n", np(wm.size())));
		std::vector<int64_t> r; for (size_t i = 0; i < n; i++) r.push_back(np(wm.get(i))); L.ev(J("getAll").raw("r", J::arr(r.data(), r.size())));
		std::vector<uint64_t> vs; const uint64_t top = (uint64_t(1) << w) - 1;
		if (w <= 3) for (uint64_t v = 0; v <= top; v++) vs.push_back(v);
		else { vs.push_back(0); vs.push_back(top); for (int k = 0; k < 5 && n; k++) { uint64_t v = vals[R.below(n)]; vs.push_back(v); vs.push_back(v ^ (1u << R.below(w))); if (v < top) vs.push_back(v + 1); } vs.push_back(R.below(top + 1)); std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end()); }
		for (size_t k = 0; k < vs.size(); k++) {
			uint64_t v = vs[k]; size_t past = n + 1 + R.below(600);
			r.clear(); for (size_t i = 0; i <= n; i++) r.push_back(np(wm.rank(v, i)));
			L.ev(J("rankAll").n("v", v).raw("r", J::arr(r.data(), r.size())).n("past", np(wm.rank(v, past))).n("total", np(wm.size(v))));
			r.clear(); for (size_t i = 0; i <= n; i++) r.push_back(np(wm.rankLt(v, i)));
			L.ev(J("ltAll").n("v", v).raw("r", J::arr(r.data(), r.size())).n("past", np(wm.rankLt(v, past))));
			if (HasSel<WM>::v) {
				size_t c = std::count(vals.begin(), vals.end(), v); r.clear();
				for (size_t i = 0; i <= c + 1; i++) r.push_back(np(wm.select(v, i)));
				r.push_back(np(wm.select(v, c + R.below(300)))); r.push_back(np(wm.select(v, c + R.below(3000))));
				L.ev(J("selAll").n("v", v).raw("r", J::arr(r.data(), r.size())));
			}
		}
		for (int k = 0; k < 6 && n; k++) { size_t p = R.below(n); uint32_t v = 77; uint64_t rk = wm.get(&v, p); L.ev(J("getRank").n("p", p).n("v", v).n("r", np(rk))); }
		if (pass == 0 && R.chance(1, 3)) {
			L.about("save/load"); std::stringstream ss; wm.save(ss);
			static WM *used = 0; WM fresh; if (!used) used = new WM; WM& t = R.chance(1, 2) ? fresh : *used;
			t.load(ss); std::string rest; std::getline(ss, rest, '\0'); wm = t; L.ev(J("saveload").b("ok", rest.empty()));
		} else break;
	}
	L.end();
}
template<class WM, class Vec> void one(Log& L, WM& used, const Vec& v, int w) { if (R.chance(1, 2)) { WM t; session(L, t, v, w); } else session(L, used, v, w); }
cybozu::WaveletMatrix wa; WNo wb; W64 wc; WC wd;
template<class Vec> void any(Log& L, const Vec& v, int w) { int k = R.below(10); if (k < 6) one(L, wa, v, w); else if (k < 8) one(L, wb, v, w); else one(L, wc, v, w); }
template<class WM> void runs(Log& L, size_t target, int w) {
	std::vector<uint16_t> v; std::vector<size_t> edge(1, 0); std::string js = "["; size_t m = 4 + R.below(60); std::vector<uint16_t> al; for (int k = 0; k < 6; k++) al.push_back(uint16_t(R.below(1u << w))); al.push_back(uint16_t((1u << w) - 1));
	for (size_t i = 0; i < m; i++) { size_t len = R.chance(1, 3) ? 1 + R.below(70) : R.chance(1, 2) ? 250 + R.below(12) : target / m + R.below(300); uint16_t x = al[R.below(al.size())]; v.insert(v.end(), len, x); edge.push_back(v.size()); if (i) js += ","; js += "[" + J::num(len) + "," + J::num(x) + "]"; } js += "]";
	L.start(); L.about("init"); static WM *used = 0; WM fresh; if (!used) used = new WM; WM& wm = R.chance(1, 2) ? fresh : *used; wm.init(v, w); L.ev(J("initRuns").n("w", w).raw("runs", js)); L.ev(J("size").n("n", np(wm.size())));
	if (R.chance(1, 3)) { std::stringstream ss; wm.save(ss); WM t; t.load(ss); std::string rest; std::getline(ss, rest, '\0'); wm = t; L.ev(J("saveload").b("ok", rest.empty())); }
	L.about("query"); size_t n = v.size(); for (int q = 0; q < 60; q++) { int64_t p = R.chance(1, 2) ? (int64_t)edge[R.below(edge.size())] + R.range(-2, 2) : R.chance(1, 2) ? (int64_t)(R.below(n / 64 + 1) * 64) + R.range(-1, 1) : (int64_t)R.below(n + 1); if (p < 0) p = 0; if (p > (int64_t)n) p = n; uint16_t x = R.chance(3, 4) ? al[R.below(al.size())] : uint16_t(R.below(1u << w));
		L.ev(J("cnt").n("v", x).n("p", p).n("r", np(wm.rank(x, p))).n("lt", np(wm.rankLt(x, p)))); if (p < (int64_t)n) { uint32_t y = 77; uint64_t rk = wm.get(&y, p); L.ev(J("at").n("p", p).n("v", np(wm.get(p))).n("v2", y).n("r", np(rk))); }
		if (HasSel<WM>::v) { size_t c = std::count(v.begin(), v.end(), x); int64_t k = R.chance(1, 3) ? (int64_t)c + R.range(-2, 2) : R.chance(1, 2) ? (int64_t)(R.below(c / 256 + 1) * 256) + R.range(-1, 1) : (int64_t)R.below(c + 1); if (k < 0) k = 0; L.ev(J("sel").n("v", x).n("k", k).n("r", np(wm.select(x, k)))); } }
	L.end(); }
void bigAll(Log& L, const Args& a) { std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 1100000 : 140000); for (size_t i = 0; i < z.size(); i++) { int w = 1 + R.below(9); if (z[i] > 60000 && w > 6) w = 6; switch (R.below(3)) { case 0: runs<WNo>(L, z[i], w); break; case 1: runs<W64>(L, z[i], w); break; default: runs<cybozu::WaveletMatrix>(L, z[i], w); } } }
int main(int argc, char **argv) {
	freopen("/dev/null", "w", stdout);
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out);
	std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) {
		// every model value stretched to a run, and placed in a random pair of bits of the width
		static const int st[] = { 1, 1, 1, 2, 5, 17, 32, 64, 65, 90, 256, 257 };
		int s = st[R.below(R.chance(1, 6) ? 12 : 6)], w = R.chance(1, 2) ? 2 : 2 + R.below(7);
		int b0 = R.below(w - 1), b1 = b0 + 1 + R.below(w - 1 - b0); int fixed = R.below(1u << w) & ~((1 << b0) | (1 << b1)); if (w == 2) { b0 = 0; b1 = 1; fixed = 0; }
		std::vector<uint8_t> v; for (int k = 0; k < sc[i][0]; k++) { int x = sc[i][1 + k]; v.insert(v.end(), s, uint8_t(fixed | ((x & 1) << b0) | ((x >> 1) << b1))); }
		any(L, v, w);
	}
	for (int i = 0; i < 120 * a.effort; i++) {
		int w = 1 + R.below(R.chance(1, 3) ? 12 : 8); size_t n = R.chance(1, 3) ? R.below(12) : R.chance(1, 4) ? 256 * (1 + R.below(3)) + R.below(3) : R.below(500);
		int alpha = 1 + R.below(R.chance(1, 2) ? 4 : 60); std::vector<uint16_t> al(alpha); for (int k = 0; k < alpha; k++) al[k] = uint16_t(R.below(1u << w)); if (R.chance(1, 3)) al[0] = uint16_t((1u << w) - 1);
		std::vector<uint16_t> v(n); uint16_t cur = al[0]; int stick = 1 + R.below(6); for (size_t k = 0; k < n; k++) { if (!R.chance(stick, 7)) cur = al[R.below(alpha)]; v[k] = cur; }
		any(L, v, w);
	}
	for (int i = 0; i < 8 * a.effort; i++) { // more than one unit of the select table (256) for a value
		int w = 1 + R.below(4); size_t n = 600 + R.below(2000); std::vector<uint8_t> v(n); int d = 1 + R.below(9); for (size_t k = 0; k < n; k++) v[k] = R.chance(d, 10) ? 0 : uint8_t(R.below(1u << w));
		any(L, v, w);
	}
	for (int i = 0; i < 2 * a.effort; i++) { int w = 13 + R.below(4); std::vector<uint16_t> v(1 + R.below(300)); for (size_t k = 0; k < v.size(); k++) v[k] = R.chance(1, 3) ? uint16_t((1u << w) - 1 - R.below(3)) : uint16_t(R.below(1u << w)); any(L, v, w); }
#ifndef CYBOZU_WAVELET_MATRIX_DIRECT_CONSTRUCT
	for (int i = 0; i < 2 * a.effort; i++) { int w = 1 + R.below(4); std::vector<uint8_t> v(1 + R.below(200)); for (size_t k = 0; k < v.size(); k++) v[k] = uint8_t(R.below(1u << w)); one(L, wd, v, w); }
#endif
	bigAll(L, a);
	return 0;
}
