// P33: sparse vectors
#include <stdio.h>
#include <string.h>
#include <map>
#include <cybozu/nlp/sparse.hpp>
#include "verif.hpp"
using namespace verif; typedef std::string S;
static Rng *gR;
#define R (*gR)
typedef cybozu::nlp::option::PositionTbl P0; typedef cybozu::nlp::option::CompressedPositionTbl P1;
S lim(uint64_t v) { char b[64]; snprintf(b, sizeof(b), "[%d,%d,%d,%d]", (int)(v & 65535), (int)(v >> 16 & 65535), (int)(v >> 32 & 65535), (int)(v >> 48)); return b; }
S pr(uint64_t p, int64_t x) { return "[" + lim(p) + "," + J::num(x) + "]"; }
struct In { S d; size_t p; In(const S& s) : d(s), p(0) {} size_t readSome(void *b, size_t n) { if (n > d.size() - p) n = d.size() - p; memcpy(b, d.data() + p, n); p += n; return n; } };
struct Out { S d; void write(const void *b, size_t n) { d.append((const char*)b, n); } };
template<class T, class A, class B> struct Se {
	typedef cybozu::nlp::SparseVector<T, A> VA; typedef cybozu::nlp::SparseVector<T, B> VB;
	Log& L; VA a[2]; VB b[2]; uint64_t last[4];
	static const char *nm(P0*) { return "plain"; } static const char *nm(P1*) { return "comp"; }
	Se(Log& L_) : L(L_) { S x = nm((A*)0), y = nm((B*)0); L.start("{\"k\":[\"" + x + "\",\"" + x + "\",\"" + y + "\",\"" + y + "\"]}"); memset(last, 0, sizeof(last)); } ~Se() { L.end(); }
	T val() { int64_t v = R.range(-99, 99); if (T(-1) > T(0) && v < 0) v = -v; return T(v); }
	template<class V> void push(V& v, int n, uint64_t p, T x) { bool ok = true; L.about("push_back"); try { v.push_back(p, x); } catch (std::exception&) { ok = false; } if (ok) last[n] = p; L.ev(J("push").n("v", n + 1).raw("p", lim(p)).n("x", (int64_t)x).b("ok", ok)); }
	uint64_t pos(int n) { static const uint64_t g[] = { 1, 2, 63, 64, 65, 1 << 14, (1 << 14) - 1, (1 << 14) + 1, 1 << 22, (1 << 22) - 1, (1 << 22) + 1, (1 << 30) - 1, 1 << 30, (1u << 30) + 1, 0xffffffffu, 1ull << 32, 1ull << 31, 5, 9, 255, 256 };
		switch (R.below(12)) { case 0: return last[n]; case 1: return last[n] - R.below(3); case 2: return R.chance(1, 3) ? R.u64() : R.u64() >> 32; case 3: { static const uint64_t e[] = { 0, 1, 0xffffffffu, 1ull << 32, 0xfffffffeu, ~uint64_t(0) }; return e[R.below(6)]; }
			case 4: case 5: case 6: case 7: return last[n] + g[R.below(sizeof(g) / sizeof(g[0]))]; case 8: return last[n] + 1 + R.below((1 << 30)); default: return last[n] + 1 + R.below(4); } }
	template<class V> void iter(const V& v, int n) { std::vector<S> l; L.about("iterate"); for (typename V::const_iterator i = v.begin(), e = v.end(); i != e; ++i) { if (l.size() > v.size() + 1) break; l.push_back(R.chance(1, 2) ? pr(i->pos(), (int64_t)i->val()) : pr((*i).pos(), (int64_t)(*i).val())); } L.ev(J("iter").n("v", n + 1).raw("l", jlist(l)).n("n", v.size()).b("empty", v.empty())); if (v.empty()) last[n] = 0; }
	template<class V> void pmap(V& v, int n) { std::map<uint64_t, T> m; int k = R.below(5); uint64_t p = last[n] + R.below(2); for (int i = 0; i < k; i++) { m[p] = val(); p += R.chance(1, 3) ? R.below(1u << 30) : R.chance(1, 8) ? (uint64_t(1) << 30) + R.below(9) - 4 : R.below(100); } std::vector<S> l; for (typename std::map<uint64_t, T>::iterator i = m.begin(); i != m.end(); ++i) l.push_back(pr(i->first, (int64_t)i->second)); bool ok = true; L.about("set"); try { v.set(m); } catch (std::exception&) { ok = false; } L.ev(J("map").n("v", n + 1).raw("l", jlist(l)).b("ok", ok)); relast(v, n); }
	template<class V> void relast(const V& v, int n) { last[n] = 0; for (typename V::const_iterator i = v.begin(), e = v.end(); i != e; ++i) last[n] = i->pos(); }
	template<class V, class W> void merge(const V& v, int n, const W& w, int m) { L.about("merge");
		if (R.chance(1, 2)) { std::vector<S> l; typedef cybozu::nlp::Intersection<V, W> I; I x(v, w); for (typename I::const_iterator i = x.begin(), e = x.end(); i != e; ++i) { if (l.size() > v.size()) break; l.push_back("[" + lim(i->pos()) + "," + J::num((int64_t)i->val1()) + "," + J::num((int64_t)i->val2()) + "]"); } L.ev(J("inter").n("v", n + 1).n("w", m + 1).raw("l", jlist(l))); }
		if (R.chance(1, 2)) { std::vector<S> l; typedef cybozu::nlp::Union<V, W> U; U x(v, w); typedef typename U::const_iterator It; for (It i = x.begin(), e = x.end(); i != e; ++i) { if (l.size() > v.size() + w.size()) break; int md = i->getMode(); const char *t = md == It::Only1 || md == It::Small ? "first" : md == It::Only2 || md == It::Large ? "second" : md == It::Equal ? "both" : "?"; const char *h = i->hasVal1() && i->hasVal2() ? "both" : i->hasVal1() ? "first" : i->hasVal2() ? "second" : "none"; l.push_back("[" + lim(i->pos()) + "," + J::num((int64_t)i->val1()) + "," + J::num((int64_t)i->val2()) + ",\"" + t + "\",\"" + h + "\"]"); } L.ev(J("union").n("v", n + 1).n("w", m + 1).raw("l", jlist(l))); }
		if (R.chance(1, 2)) { double d = 0; int k = 0; if (R.chance(1, 2)) { cybozu::nlp::InnerProduct(&d, v, w); } else { cybozu::nlp::InnerProduct(&k, v, w); d = k; } L.ev(J("inner").n("v", n + 1).n("w", m + 1).n("r", (int64_t)d)); } }
	template<class V, class W> void sl(const V& v, int n, W& w, int m) { if (n == m) return; Out o; L.about("save"); v.save(o); bool ok = true; S d = o.d; bool cut = R.chance(1, 4) && !d.empty(); if (cut) d.resize(R.below(d.size())); In in(d); L.about("load"); try { w.load(in); } catch (std::exception&) { ok = false; } L.ev(J(cut ? "cut" : "load").n("v", n + 1).n("w", m + 1).b("ok", ok)); iter(w, m); relast(w, m); }
	template<class W> void raw(W& w, int m) { Out o; int k = R.below(4); size_t sz = k; cybozu::save(o, sz); std::vector<S> l; for (int i = 0; i < k; i++) { size_t p = R.chance(1, 3) ? pos(m) : R.below(4) + i * 3; T x = val(); cybozu::save(o, p); cybozu::save(o, x); l.push_back(pr(p, (int64_t)x)); } In in(o.d); bool ok = true; L.about("load"); try { w.load(in); } catch (std::exception&) { ok = false; } L.ev(J("raw").n("w", m + 1).raw("l", jlist(l)).b("ok", ok)); iter(w, m); relast(w, m); }
	// v[1] becomes v[0] but for one position, or one value, or nothing
	template<class V> void twin(V *v, int base) { v[1].clear(); last[base + 1] = 0; L.ev(J("clear").n("v", base + 2)); int k = v[0].size() ? R.below(v[0].size()) : 0, i = 0, how = R.below(3); uint64_t add = 0; for (typename V::const_iterator it = v[0].begin(), e = v[0].end(); it != e; ++it, ++i) { T x = it->val(); if (i == k && how == 0) add = 1; if (i == k && how == 1) x = T(x + 1); push(v[1], base + 1, it->pos() + (R.chance(1, 2) || i == k ? add : 0), x); } }
	template<class V, class O> void one(V *v, int base, O *o, int obase) { int i = R.below(2), n = base + i, j = R.below(2); V& x = v[i]; switch (R.below(16)) {
		case 0: case 1: case 2: case 3: case 4: push(x, n, pos(n), val()); break; case 5: case 6: iter(x, n); break; case 7: pmap(x, n); break;
		case 8: if (R.chance(1, 2)) { x.clear(); last[n] = 0; L.ev(J("clear").n("v", n + 1)); } else { x.reserve(R.below(20)); } break;
		case 9: { v[0].swap(v[1]); std::swap(last[base], last[base + 1]); L.ev(J("swap").n("v", base + 1).n("w", base + 2)); } break;
		case 10: { x = v[j]; last[n] = last[base + j]; L.ev(J("copy").n("v", n + 1).n("w", base + j + 1)); } break;
		case 11: { if (R.chance(1, 2)) twin(v, base); bool r = x == v[j], ne = x != v[j]; L.ev(J("eq").n("v", n + 1).n("w", base + j + 1).b("r", r).b("ne", ne)); } break;
		case 12: { double d = x.norm(); L.ev(J("norm").n("v", n + 1).n("r", (int64_t)d)); } break;
		case 13: if (R.chance(1, 3)) raw(x, n); else if (R.chance(1, 2)) sl(x, n, v[j], base + j); else sl(x, n, o[j], obase + j); break;
		default: if (R.chance(1, 2)) merge(x, n, v[j], base + j); else merge(x, n, o[j], obase + j); } }
	void step() { if (R.chance(1, 2)) one(a, 0, b, 2); else one(b, 2, a, 0); }
	void near() { uint64_t p = R.below(3); for (int i = 0; i < 8; i++) { int n = R.below(4), m = R.below(4); T x = val(); if (n < 2) push(a[n], n, p, x); else push(b[n - 2], n, p, x); if (m != n && R.chance(1, 2)) { x = val(); if (m < 2) push(a[m], m, p, x); else push(b[m - 2], m, p, x); } p += 1 + (R.chance(1, 5) ? R.below(1 << 20) : R.below(3)); } }
};
template<class T, class A, class B> void script(Log& L, const std::vector<int>& s) { Se<T, A, B> x(L); int n = s[0]; for (int i = 0; i < n; i++) x.push(x.a[0], 0, s[1 + i], T(i + 2)); for (size_t i = 1 + n; i < s.size(); i++) x.push(x.b[0], 2, s[i], T(i + 30)); for (int i = 0; i < 2; i++) { x.merge(x.a[0], 0, x.b[0], 2); x.merge(x.b[0], 2, x.a[0], 0); } }
template<class T, class A, class B> void rnd(Log& L) { Se<T, A, B> x(L); if (R.chance(1, 2)) x.near(); int n = 25; while (n--) x.step(); for (int i = 0; i < 2; i++) { x.iter(x.a[i], i); x.iter(x.b[i], i + 2); } }
template<class A, class B> void bigOne(Log& L, size_t n) { typedef cybozu::nlp::SparseVector<int, A> VA; typedef cybozu::nlp::SparseVector<int, B> VB; { Se<int, A, B> s(L); L.about("big"); VA x; VB y, t; std::map<uint64_t, int> m, k; uint64_t p = 0; for (size_t i = 0; i < n; i++) { p += 1 + (R.chance(1, 9) ? R.below(n > 100000 ? 1 << 15 : 1 << 18) : R.below(90)); int v = (int)R.below(100) + 1; if (R.chance(2, 3)) m[p] = v; if (R.chance(2, 3)) k[p] = v + 1; } for (std::map<uint64_t, int>::iterator i = m.begin(); i != m.end(); ++i) x.push_back(i->first, i->second); y.set(k);
#define EQ(what, v, w) { bool ok = true; std::map<uint64_t, int>::iterator j = w.begin(); size_t c = 0; for (auto i = v.begin(), e = v.end(); i != e && j != w.end(); ++i, ++j, c++) if (i->pos() != j->first || i->val() != j->second) ok = false; bigEvent(L, what, w.size(), v.size(), ok && c == w.size()); }
	EQ("push", x, m) EQ("map", y, k) Out o; x.save(o); In in(o.d); t.load(in); EQ("load", t, m) bigEvent(L, "rest", o.d.size(), in.p, true); size_t c = 0, u = 0, iw = 0, uw = k.size(); long long ipw = 0; bool ok = true; for (auto& i : m) { if (k.count(i.first)) { iw++; ipw += i.second * k[i.first]; } else uw++; } { typedef cybozu::nlp::Intersection<VA, VB> I; I z(x, y); for (typename I::const_iterator i = z.begin(), e = z.end(); i != e; ++i, c++) if (m[i->pos()] != i->val1() || k[i->pos()] != i->val2()) ok = false; } bigEvent(L, "inter", iw, c, ok); { typedef cybozu::nlp::Union<VA, VB> U; U z(x, y); for (typename U::const_iterator i = z.begin(), e = z.end(); i != e; ++i) u++; } bigEvent(L, "union", uw, u, true); double d; cybozu::nlp::InnerProduct(&d, x, y); bigEvent(L, "inner", ipw, (size_t)d, true); } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out, 60); std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) switch (R.below(4)) { case 0: script<int, P0, P0>(L, sc[i]); break; case 1: script<double, P0, P1>(L, sc[i]); break; case 2: script<int, P1, P0>(L, sc[i]); break; default: script<float, P1, P1>(L, sc[i]); }
	for (int i = 0; i < 60 * a.effort; i++) { rnd<int, P0, P1>(L); rnd<double, P1, P1>(L); rnd<unsigned char, P1, P0>(L); rnd<float, P0, P0>(L); }
	std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 600000 : 70000); for (size_t i = 0; i < z.size(); i++) switch (R.below(3)) { case 0: bigOne<P0, P1>(L, z[i]); break; case 1: bigOne<P1, P0>(L, z[i]); break; default: bigOne<P1, P1>(L, z[i]); }
	return 0;
}
