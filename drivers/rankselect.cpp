#include "verif.hpp"
#include <sstream>
#include <algorithm>
#include <cybozu/sucvector.hpp>
#include <cybozu/csucvector.hpp>
using namespace verif;
static Rng *gR;
#define R (*gR)
typedef std::vector<uint8_t> Bits;
std::vector<uint64_t> pack(const Bits& b, bool garbage) {
	std::vector<uint64_t> v((b.size() + 63) / 64); for (size_t i = 0; i < b.size(); i++) if (b[i]) v[i / 64] |= uint64_t(1) << (i % 64);
	if (garbage && b.size() % 64) v.back() |= R.u64() << (b.size() % 64);
	return v;
}
template<class T> void saveLoad(Log& L, T& sv) {
	bool ok = true;
	try { std::stringstream ss; sv.save(ss); ss << "T"; T other; if (R.chance(1, 2)) { uint64_t x[3] = { 5, ~uint64_t(0), 7 }; other.init(x, 130 + R.below(60)); } other.load(ss); ok = ss.get() == 'T'; sv = other; } catch (std::exception&) { ok = false; }
	L.ev(J("saveload").b("ok", ok));
}
template<class T> std::string arrOf(const std::vector<T>& v) { return J::arr(v.data(), v.size()); }
int64_t np(uint64_t x) { return x == cybozu::NotFound ? -1 : (int64_t)std::min<uint64_t>(x, 0x7fffffff); }
// --- access
template<class S> struct Suc {
	S sv; static const bool hasSel = true;
	void init(const Bits& b) {
		if (R.chance(1, 4)) { sv.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (b[i]) sv.set(i); sv.ready(); }
		else { std::vector<uint64_t> v = pack(b, R.chance(1, 3)); if (R.chance(1, 2)) { S t(v.data(), b.size()); sv = t; } else sv.init(v.data(), b.size()); }
	}
	uint64_t rank(bool b, uint64_t p) { return R.chance(1, 2) ? sv.rank(b, p) : b ? sv.rank1(p) : sv.rank0(p); }
	uint64_t sel(bool b, uint64_t k) { return R.chance(1, 2) ? sv.select(b, k) : b ? sv.select1(k) : sv.select0(k); }
	int64_t size() { return sv.size(); }
	int64_t count(bool b) { return sv.size(b); }
};
template<class S> struct SucNoSel : Suc<S> { static const bool hasSel = false; uint64_t sel(bool, uint64_t) { return 0; } uint64_t rank(bool b, uint64_t p) { return b ? this->sv.rank1(p) : this->sv.rank0(p); } };
struct CSuc {
	cybozu::CSucVector sv; static const bool hasSel = false;
	void init(const Bits& b) { std::vector<uint64_t> v = pack(b, R.chance(1, 3)); if (R.chance(1, 2)) { cybozu::CSucVector t(v.data(), b.size()); sv = t; } else sv.init(v.data(), b.size()); }
	uint64_t rank(bool b, uint64_t p) { return R.chance(1, 2) ? sv.rank(b, p) : b ? sv.rank1(p) : sv.rank0(p); }
	uint64_t sel(bool, uint64_t) { return 0; }
	int64_t size() { return sv.bitSize_; }
	int64_t count(bool b) { return sv.rank(b, sv.bitSize_); }
};
template<class A> void counts(Log& L, A& a) {
	L.ev(J("size").n("n", a.size())); for (int b = 0; b < 2; b++) L.ev(J("count").n("b", b).n("n", a.count(b)));
}
template<class A> void dense(Log& L, A& a, const Bits& bits) {
	L.start(); L.about("init");
	a.init(bits); L.ev(J("init").raw("bits", arrOf(bits)));
	for (int pass = 0; pass < 2; pass++) {
		L.about("query");
		counts(L, a);
		if (bits.size() < 300 || R.chance(1, 3)) { Bits g(bits.size()); for (size_t i = 0; i < bits.size(); i++) g[i] = a.sv.get(i); L.ev(J("getAll").raw("r", arrOf(g))); }
		{ bool t = false; try { a.sv.get(bits.size() + (R.chance(1, 2) ? 0 : R.below(300))); } catch (cybozu::Exception&) { t = true; } L.ev(J("getBad").b("thrown", t)); }
		for (int b = 0; b < 2; b++) {
			std::vector<int64_t> r; for (size_t i = 0; i <= bits.size(); i++) r.push_back(np(a.rank(b, i)));
			L.ev(J("rankAll").n("b", b).raw("r", arrOf(r)));
			if (A::hasSel) {
				size_t c = std::count(bits.begin(), bits.end(), (uint8_t)b); r.clear();
				for (size_t k = 0; k <= c + 1; k++) r.push_back(np(a.sel(b, k)));
				r.push_back(np(a.sel(b, c + R.below(70)))); r.push_back(np(a.sel(b, c + R.below(3000)))); r.push_back(np(a.sel(b, ~uint64_t(0) - R.below(3))));
				L.ev(J("selAll").n("b", b).raw("r", arrOf(r)));
			}
		}
		if (pass == 0 && R.chance(1, 3)) { L.about("save/load"); saveLoad(L, a.sv); } else break;
	}
	L.end();
}
template<class A> void runs(Log& L, A& a, const std::vector<std::pair<int, int> >& rs, int queries) {
	Bits bits; std::string js = "["; std::vector<size_t> edge(1, 0);
	for (size_t i = 0; i < rs.size(); i++) { bits.insert(bits.end(), rs[i].first, (uint8_t)rs[i].second); if (i) js += ","; js += "[" + J::num(rs[i].first) + "," + J::num(rs[i].second) + "]"; edge.push_back(bits.size()); }
	js += "]";
	L.start(); L.about("init"); a.init(bits); L.ev(J("initRuns").raw("runs", js));
	counts(L, a);
	if (R.chance(1, 3)) saveLoad(L, a.sv);
	size_t n = bits.size(), c1 = std::count(bits.begin(), bits.end(), 1);
	L.about("query");
	for (int q = 0; q < queries; q++) {
		int64_t p; switch (R.below(4)) { case 0: p = (int64_t)edge[R.below(edge.size())] + R.range(-2, 2); break; case 1: p = (int64_t)(R.below(n / 64 + 1) * 64) + R.range(-1, 1); break; case 2: p = (int64_t)(R.below(n / 1024 + 1) * 1024) + R.range(-1, 1); break; default: p = R.below(n + 1); }
		if (p < 0) p = 0; if (p > (int64_t)n) p = n;
		int b = R.below(2);
		L.ev(J("rank").n("b", b).n("p", p).n("r", np(a.rank(b, p))));
		if (p < (int64_t)n) L.ev(J("get").n("p", p).n("r", a.sv.get(p)));
		if (A::hasSel) {
			size_t c = b ? c1 : n - c1;
			int64_t k; switch (R.below(4)) { case 0: k = (int64_t)(R.below(c / 1024 + 1) * 1024) + R.range(-1, 1); break; case 1: k = (int64_t)c + R.range(-2, 2); break; case 2: { size_t x = std::min(edge[R.below(edge.size())], n); k = (int64_t)(b ? std::count(bits.begin(), bits.begin() + x, 1) : x - std::count(bits.begin(), bits.begin() + x, 1)) + R.range(-1, 1); break; } default: k = R.below(c + 1); }
			if (k < 0) k = 0;
			L.ev(J("select").n("b", b).n("k", k).n("r", np(a.sel(b, k))));
		}
	}
	L.end();
}
typedef Suc<cybozu::SucVector> A64; typedef Suc<cybozu::SucVectorLt4G> A32; typedef SucNoSel<cybozu::SucVectorT<uint32_t, false> > ANo;
// objects live across sessions: init again on a used object is part of the history
A64 *a64; A32 *a32; ANo *ano; CSuc *csuc;
void denseAny(Log& L, const Bits& b, int which) {
	switch (which) { case 0: if (R.chance(1, 2)) { A64 t; dense(L, t, b); } else dense(L, *a64, b); break;
	case 1: if (R.chance(1, 2)) { A32 t; dense(L, t, b); } else dense(L, *a32, b); break;
	case 2: if (R.chance(1, 2)) { ANo t; dense(L, t, b); } else dense(L, *ano, b); break;
	default: if (R.chance(1, 2)) { CSuc t; dense(L, t, b); } else dense(L, *csuc, b); }
}
int pickKind() { int x = R.below(9); return x < 4 ? 0 : x < 6 ? 1 : x < 7 ? 2 : 3; }
int main(int argc, char **argv) {
	freopen("/dev/null", "w", stdout); // CSucVector prints
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out);
	a64 = new A64; a32 = new A32; ano = new ANo; csuc = new CSuc;
	std::vector<std::vector<int> > sc = loadScript(a.script);
	static const int stretch[] = { 1, 3, 7, 16, 32, 63, 64, 65, 85, 128, 256 };
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) {
		int n = sc[i][0]; 
		for (int rep = 0; rep < 2; rep++) {
			int st = stretch[n * 256 > 1500 && rep ? R.below(9) : R.below(9)]; if (n <= 4) st = stretch[R.below(11)];
			Bits b; for (int k = 0; k < n; k++) b.insert(b.end(), st, (uint8_t)sc[i][1 + k]);
			int cut = R.below(3); while (cut-- > 0 && !b.empty()) b.pop_back();
			denseAny(L, b, pickKind());
		}
	}
	for (int i = 0; i < 150 * a.effort; i++) {
		size_t n = R.chance(1, 3) ? 250 + R.below(12) : R.chance(1, 3) ? 64 * R.below(12) + R.below(3) : R.below(1200); int d = 1 + R.below(20); int alt = R.below(3);
		Bits b(n); int cur = R.below(2); for (size_t k = 0; k < n; k++) { if (alt == 0) b[k] = R.chance(d, 21); else { if (R.chance(1, 1 + d * d)) cur ^= 1; b[k] = cur; } }
		denseAny(L, b, pickKind());
	}
	for (int i = 0; i < 6 * a.effort; i++) { // longer dense vectors: several units of the select table
		size_t n = 3000 + R.below(9000); int d = R.below(4); Bits b(n); for (size_t k = 0; k < n; k++) b[k] = d == 0 ? R.chance(1, 2) : d == 1 ? R.chance(1, 300) : d == 2 ? !R.chance(1, 300) : R.chance(1, 9);
		denseAny(L, b, i % 4);
	}
	for (int i = 0; i < 30 * a.effort; i++) { // runs
		std::vector<std::pair<int, int> > rs; int m = 1 + R.below(12); int bit = R.below(2);
		for (int k = 0; k < m; k++) { static const int len[] = { 1, 2, 7, 14, 63, 64, 65, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 8192, 16383, 16384, 16385, 40000 }; rs.push_back(std::make_pair(R.chance(1, 2) ? len[R.below(20)] : 1 + (int)R.below(3000), bit)); bit ^= 1; }
		switch (R.below(4)) { case 0: { runs(L, *a64, rs, 60); break; } case 1: runs(L, *a32, rs, 60); break; case 2: runs(L, *ano, rs, 60); break; default: runs(L, *csuc, rs, 60); }
	}
	std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 17000000 : 4200000);
	for (size_t i = 0; i < z.size(); i++) { // many short runs after long ones
		std::vector<std::pair<int, int> > rs; int bit = R.below(2); rs.push_back(std::make_pair((int)z[i], bit)); int m = 40 + R.below(100); for (int k = 0; k < m; k++) { bit ^= 1; rs.push_back(std::make_pair(R.chance(1, 20) ? (int)(z[i] / 4) + 1 : 1 + (int)R.below(R.chance(1, 2) ? 6 : 90), bit)); }
		switch (R.below(4)) { case 0: { runs(L, *a64, rs, 40); break; } case 1: runs(L, *a32, rs, 40); break; case 2: runs(L, *ano, rs, 40); break; default: runs(L, *csuc, rs, 40); }
	}
	return 0;
}
