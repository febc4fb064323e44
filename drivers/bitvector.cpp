#include "verif.hpp"
#include <cybozu/bitvector.hpp>
using namespace verif;

template<class T> std::string bitsOf(const T *p, size_t n) { // n words
	std::string r = "[";
	for (size_t i = 0; i < n * sizeof(T) * 8; i++) { if (i) r += ','; r += ((p[i / (sizeof(T) * 8)] >> (i % (sizeof(T) * 8))) & 1) ? '1' : '0'; }
	return r + "]";
}
template<class T> struct H {
	typedef cybozu::BitVectorT<T> V;
	static const size_t W = sizeof(T) * 8;
	Log& L; Rng& R; V v[2];
	H(Log& l, Rng& r) : L(l), R(r) {}
	static const char *nm(int k) { return k ? "b" : "a"; }
	J& content(J& j, int k) {
		const V& x = v[k];
		size_t n = x.size();
		j.pos("size", n);
		std::string s = "[";
		if (n > 100000) n = 0;
		for (size_t i = 0; i < n; i++) { if (i) s += ','; s += x.get(i) ? '1' : '0'; }
		return j.raw("bits", s + "]");
	}
	std::vector<T> words(size_t n, int fill) {
		std::vector<T> w(n);
		for (size_t i = 0; i < n; i++) w[i] = fill == 0 ? T(R.u64()) : fill == 1 ? T(-1) : T(0);
		return w;
	}
	int fill() { return R.chance(1, 2) ? 0 : R.chance(3, 4) ? 1 : 2; }
	// raw source: exact heap allocation so that the sanitizer sees any read past the end
	void init(int k, size_t n, int f) {
		std::vector<T> w = words((n + W - 1) / W, f);
		J j("init"); j.str("v", nm(k)).n("n", n).raw("src", bitsOf(w.data(), w.size()));
		L.about("init");
		if (n) { if (R.chance(1, 2)) v[k].init(w.data(), n); else v[k] = V(w.data(), n); } else v[k].resize(0);
		L.ev(content(j, k));
	}
	void resize(int k, size_t n) { J j("resize"); j.str("v", nm(k)).n("n", n); L.about("resize"); if (R.chance(1, 8)) v[k].reserve(n + R.below(50)); v[k].resize(n); L.ev(content(j, k)); }
	void clear(int k) { J j("clear"); j.str("v", nm(k)); L.about("clear"); v[k].clear(); L.ev(content(j, k)); }
	void appendArr(int k, size_t n, int f) {
		std::vector<T> w = words((n + W - 1) / W, f);
		J j("appendArr"); j.str("v", nm(k)).n("n", n).raw("src", bitsOf(w.data(), w.size()));
		L.about("append(array)"); v[k].append(w.data(), n); L.ev(content(j, k));
	}
	void appendWord(int k, size_t n, int f) {
		uint64_t x = f == 0 ? R.u64() : f == 1 ? ~uint64_t(0) : 0;
		J j("appendWord"); j.str("v", nm(k)).n("n", n).n("W", W).raw("src", bitsOf(&x, 1));
		bool thrown = false;
		L.about("append(word)"); try { v[k].append(x, n); } catch (std::exception&) { thrown = true; }
		L.ev(content(j.b("thrown", thrown), k));
	}
	void appendVec(int k, int m) { J j("appendVec"); j.str("v", nm(k)).str("w", nm(m)); L.about("append(vector)"); v[k].append(v[m]); L.ev(content(j, k)); }
	void set(int k, size_t idx, bool b) {
		J j("set"); j.str("v", nm(k)).pos("idx", idx).n("b", b); bool thrown = false;
		L.about("set");
		try { switch (R.below(2)) { case 0: v[k].set(idx, b); break; default: if (b) v[k].set(idx); else v[k].reset(idx); } } catch (std::exception&) { thrown = true; }
		L.ev(content(j.b("thrown", thrown), k));
	}
	void get(int k, size_t idx) {
		J j("get"); j.str("v", nm(k)).pos("idx", idx); bool thrown = false, r = false;
		L.about("get"); try { r = v[k].get(idx); } catch (std::exception&) { thrown = true; }
		L.ev(j.b("thrown", thrown).n("r", r));
	}
	void copy(int k, int m) { J j("copy"); j.str("v", nm(k)).str("w", nm(m)); L.about("copy"); if (R.chance(1, 2)) { V t(v[m]); v[k] = t; } else v[k] = v[m]; L.ev(content(j, k)); }
	void swap(int k, int m) { J j("swap"); j.str("v", nm(k)).str("w", nm(m)); L.about("swap"); std::swap(v[k], v[m]); L.ev(content(j, k)); }
	void extractWord(int k, size_t pos, size_t n) {
		J j("extractWord"); j.str("v", nm(k)).pos("pos", pos).pos("n", n).n("W", W); bool thrown = false; T r = 0;
		L.about("extract(word)"); try { r = v[k].extract(pos, n); } catch (std::exception&) { thrown = true; }
		L.ev(j.b("thrown", thrown).raw("r", bitsOf(&r, 1)));
	}
	void extractArr(int k, size_t pos, size_t n) {
		size_t m = (n > 100000 ? 0 : (n + W - 1) / W) + R.below(2);
		std::vector<T> d = words(m, fill());
		J j("extractArr"); j.str("v", nm(k)).pos("pos", pos).pos("n", n).n("W", W).raw("before", bitsOf(d.data(), m)); bool thrown = false;
		L.about("extract(array)"); try { v[k].extract(d.data(), pos, n); } catch (std::exception&) { thrown = true; }
		L.ev(j.b("thrown", thrown).raw("r", bitsOf(d.data(), m)));
	}
	void extractVec(int k, int m, size_t pos, size_t n) {
		if (k == m) return;
		J j("extractVec"); j.str("v", nm(k)).str("w", nm(m)).pos("pos", pos).pos("n", n); bool thrown = false;
		L.about("extract(vector)"); try { v[k].extract(v[m], pos, n); } catch (std::exception&) { thrown = true; }
		L.ev(content(j.b("thrown", thrown), m));
	}
	void eq() {
		int k = R.below(2), m = R.below(2);
		L.about("==");
		bool r = v[k] == v[m], ne = v[k] != v[m];
		L.ev(J("eq").str("v", nm(k)).str("w", nm(m)).b("r", r).b("ne", ne));
	}
	// growing exposes whatever is stored above the length
	void finish() {
		for (int k = 0; k < 2; k++) { eq(); resize(k, v[k].size() + 1 + R.below(3 * W)); }
		eq();
		for (int k = 0; k < 2; k++) { J j("check"); j.str("v", nm(k)); L.ev(content(j, k)); }
	}
	size_t len() {
		switch (R.below(5)) {
		case 0: return R.below(4);
		case 1: return W * R.below(4) + R.below(3) - (R.chance(1, 2) ? 0 : 0);
		case 2: { size_t x = W * (1 + R.below(3)); return x - 1 - R.below(2); }
		case 3: return R.below(W + 2);
		default: return R.below(5 * W);
		}
	}
	size_t idx(int k) {
		size_t n = v[k].size();
		switch (R.below(8)) { case 0: return n; case 1: return n + R.below(W * 2); case 2: return n ? n - 1 : 0; case 3: return ~size_t(0); case 4: return n ? ((n - 1) / W) * W : 0; default: return R.below(n + 1); }
	}
	void range(int k, size_t& pos, size_t& n) {
		size_t len_ = v[k].size();
		switch (R.below(8)) {
		case 0: pos = idx(k); n = len(); break;
		case 1: n = R.below(len_ + 1); pos = len_ - n; break;                 // up to the end
		case 2: n = R.below(len_ + 1); pos = len_ - n + 1; break;             // one too far
		case 3: pos = len_ ? (R.below(len_) / W) * W : 0; n = R.below(len_ - pos + 1); break; // aligned
		case 4: pos = ~size_t(0) - R.below(3); n = 1 + R.below(4); break;       // wraps
		default: pos = R.below(len_ + 1); n = R.below(len_ - pos + 1); break;
		}
	}
	void random(int ops) {
		L.start();
		for (int i = 0; i < ops; i++) {
			int k = R.below(2), m = R.below(2); size_t pos, n;
			bool big = v[0].size() + v[1].size() > 12 * W;
			switch (R.below(17)) {
			case 0: init(k, len(), fill()); break;
			case 1: resize(k, len()); break;
			case 2: resize(k, v[k].size() > W && R.chance(1, 2) ? v[k].size() - R.below(W) : len()); break;
			case 3: if (R.chance(1, 4)) clear(k); break;
			case 4: case 5: if (!big) appendArr(k, len(), fill()); break;
			case 6: case 7: if (!big) appendWord(k, R.chance(1, 8) ? W + R.below(3) : R.below(W + 1), fill()); break;
			case 8: if (!big) appendVec(k, m); break;
			case 9: case 10: set(k, idx(k), R.chance(1, 2)); break;
			case 11: get(k, idx(k)); break;
			case 12: if (R.chance(1, 2)) copy(k, m); else if (k != m) swap(k, m); break;
			case 13: range(k, pos, n); if (R.chance(2, 3) && n > W) n = R.below(W + 1); extractWord(k, pos, n); break;
			case 14: range(k, pos, n); if (n > 100000) break; extractArr(k, pos, n); break;
			case 15: range(k, pos, n); if (n > 100000) break; extractVec(k, 1 - k, pos, n); break;
			case 16: eq(); break;
			}
		}
		finish();
		L.end();
	}
	void replay(const std::vector<int>& s) {
		L.start();
		for (size_t i = 0; i < s.size();) {
			int op = s[i++]; int k = s[i++];
			switch (op) {
			case 1: resize(k, s[i++]); break;
			case 2: appendWord(k, s[i++], 1); break;
			case 3: appendVec(k, s[i++]); break;
			case 4: { int p = s[i++]; set(k, p, s[i++] != 0); break; }
			case 5: init(k, s[i++], 1); break;
			case 6: { int p = s[i++]; extractVec(k, 1 - k, p, s[i++]); break; }
			case 7: copy(k, 1 - k); break;
			case 8: clear(k); break;
			default: abort();
			}
		}
		finish();
		L.end();
	}
	void helpers() {
		L.start();
		for (int i = 0; i < 12; i++) {
			size_t n = len(), m = (n + W - 1) / W + 1;
			std::vector<T> src = words((n + W - 1) / W, fill()), dst = words(m, fill()), d = dst;
			std::string before = bitsOf(dst.data(), m);
			switch (R.below(4)) {
			case 0: { size_t x = R.below(m * W); bool b = R.chance(1, 2); L.about("block bit"); if (b) cybozu::SetBlockBit(d.data(), x); else cybozu::ResetBlockBit(d.data(), x);
				L.ev(J("blockset").n("idx", x).n("b", b).raw("before", before).raw("after", bitsOf(d.data(), m))); break; }
			case 1: { size_t x = R.below(m * W); bool r = cybozu::GetBlockBit(d.data(), x); L.ev(J("blockget").n("idx", x).n("r", r).raw("before", before)); break; }
			case 2: { L.about("CopyBit"); cybozu::CopyBit<T>(d.data(), src.data(), n);
				L.ev(J("copybit").n("n", n).n("W", W).raw("src", bitsOf(src.data(), src.size())).raw("before", before).raw("after", bitsOf(d.data(), m))); break; }
			case 3: {
				size_t sh = R.chance(1, 8) ? W + R.below(3) : R.below(W);
				T ext = sh && sh < W && R.chance(1, 2) ? T(R.u64()) & ((T(1) << sh) - 1) : 0;
				bool thrown = false, inplace = R.chance(1, 3); T r = 0;
				L.about("ShiftLeftBit");
				if (inplace) { for (size_t j = 0; j < src.size(); j++) d[j] = src[j]; before = bitsOf(d.data(), m); }
				try { r = cybozu::ShiftLeftBit<T>(d.data(), inplace ? d.data() : src.data(), n, sh, ext); } catch (std::exception&) { thrown = true; }
				L.ev(J("shl").n("n", n).n("W", W).n("sh", sh).raw("ext", bitsOf(&ext, 1)).b("thrown", thrown).raw("r", bitsOf(&r, 1)).raw("src", bitsOf(src.data(), src.size())).raw("before", before).raw("after", bitsOf(d.data(), m)));
				break; }
			}
		}
		L.end();
	}
};
template<class T> void run(Log& L, Rng& R, int n) {
	for (int i = 0; i < n; i++) { H<T> h(L, R); h.random(4 + R.below(20)); }
	for (int i = 0; i < n / 4; i++) { H<T> h(L, R); h.helpers(); }
}
template<class T> void bigOne(Log& L, Rng& R, size_t n) { // long vectors, compared bit by bit
	typedef cybozu::BitVectorT<T> B; const size_t U = sizeof(T) * 8; L.start(); L.about("big"); std::vector<bool> w; B v; while (w.size() < n) { size_t len = R.chance(1, 4) ? n / 3 + R.below(70) : R.below(200), u = (len + U - 1) / U; std::vector<T> x(u + 1); for (size_t k = 0; k < u; k++) x[k] = (T)R.u64();
		switch (R.below(4)) { case 0: v.append(&x[0], len); for (size_t k = 0; k < len; k++) w.push_back((x[k / U] >> (k % U)) & 1); break; case 1: { B y(&x[0], len); v.append(y); for (size_t k = 0; k < len; k++) w.push_back((x[k / U] >> (k % U)) & 1); } break; case 2: { T q = (T)R.u64(); size_t m = 1 + R.below(U); v.append(q, m); for (size_t k = 0; k < m; k++) w.push_back((q >> k) & 1); } break; default: v.resize(w.size() + len); w.resize(w.size() + len); } }
	for (size_t k = 0; k < 300; k++) { size_t p = R.below(w.size()); bool b = R.chance(1, 2); v.set(p, b); w[p] = b; } bool same = true; for (size_t k = 0; k < w.size(); k++) if (v.get(k) != w[k]) same = false; bigEvent(L, "build", w.size(), v.size(), same);
	for (int q = 0; q < 6; q++) { size_t p = R.below(w.size()), len = R.below(w.size() - p + 1); B d; if (R.chance(1, 2)) { T z = 1; d.init(&z, 3); } v.extract(d, p, len); same = true; for (size_t k = 0; k < len && k < d.size(); k++) if (d.get(k) != w[p + k]) same = false; bigEvent(L, "extract", len, d.size(), same); }
	size_t m = R.below(w.size()); v.resize(m); v.resize(w.size()); same = true; for (size_t k = 0; k < w.size(); k++) if (v.get(k) != (k < m ? bool(w[k]) : false)) same = false; bigEvent(L, "resize", w.size(), v.size(), same); L.end(); }
int main(int argc, char **argv) {
	Args a(argc, argv);
	Rng R(a.seed);
	Log L(a.out);
	std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) {
		// every model behaviour on one word type, a quarter of them per run also on the others
		if (R.chance(3, 4)) { H<uint8_t> h(L, R); h.replay(sc[i]); } else { H<uint16_t> h(L, R); h.replay(sc[i]); }
	}
	int n = 400 * a.effort;
	run<uint8_t>(L, R, n); run<uint16_t>(L, R, n / 2); run<uint32_t>(L, R, n / 2); run<uint64_t>(L, R, n);
	std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 4200000 : 600000); for (size_t i = 0; i < z.size(); i++) { switch (R.below(4)) { case 0: bigOne<uint8_t>(L, R, z[i]); break; case 1: bigOne<uint16_t>(L, R, z[i]); break; case 2: bigOne<uint32_t>(L, R, z[i]); break; default: bigOne<uint64_t>(L, R, z[i]); } }
	return 0;
}
