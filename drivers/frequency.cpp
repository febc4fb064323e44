// P10: frequency tables
#include <string.h>
#include <stdio.h>
#include <cybozu/frequency.hpp>
#include <sstream>
#include <map>
#include <vector>
#include <string>
#include "verif.hpp"
using namespace verif;
static Rng *gR;
#define R (*gR)
template<class E> struct Univ { static E at(int i, int f) { static const int v[] = { 0, 1, 97, 127, 128, 200, 254, 255 }; return E(v[(i + f) % 8]); } };
template<> struct Univ<uint16_t> { static uint16_t at(int i, int f) { static const int v[] = { 0, 1, 255, 256, 257, 32768, 65535, 512 }; return uint16_t(v[(i + f) % 8]); } };
template<> struct Univ<int> { static int at(int i, int f) { static const int v[] = { 0, -1, 1, 65536, 65537, 2147483647, -2147483647 - 1, 7 }; return v[(i + f) % 8]; } };
template<> struct Univ<std::string> { static std::string at(int i, int f) { static const char *v[] = { "", "a", "b", "aa", "ab", "a longer string than fits in place", "0", "B" }; return v[(i + f) % 8]; } };
template<class E, class I, bool general> struct Run {
	typedef cybozu::Frequency<E, I> F; F *t[3]; int f; Log& L;
	Run(Log& L) : f(R.below(8)), L(L) { t[1] = new F; t[2] = new F; L.start(); }
	~Run() { delete t[1]; delete t[2]; L.end(); }
	E e(int i) { return Univ<E>::at(i, f); }
	int id(const E& x) { for (int i = 0; i < 8; i++) if (e(i) == x) return i; return -1; }
	void check(int k) {
		L.about("query"); std::vector<int64_t> fr; for (int i = 0; i < 8; i++) fr.push_back((int64_t)t[k]->getFrequency(e(i))); L.ev(J("freqs").n("t", k).raw("f", J::arr(fr.data(), 8)));
	}
	void table(int k) { check(k); std::vector<int64_t> el, ix; for (size_t i = 0; i < t[k]->size() && i < 20; i++) { E x = t[k]->getElement(i); el.push_back(id(x)); ix.push_back((int64_t)t[k]->getIndex(x)); } L.ev(J("table").n("t", k).raw("elems", J::arr(el.data(), el.size())).raw("idx", J::arr(ix.data(), ix.size()))); if (general) bad(k); }
	template<class Q> static bool thrown(Q q) { try { q(); } catch (cybozu::Exception&) { return true; } return false; }
	void bad(int k) { const F& q = *t[k]; L.ev(J("badElem").b("thrown", thrown([&] { q.getElement(q.size() + R.below(2)); }))); for (int i = 0; i < 8; i++) if (q.getFrequency(e(i)) == 0) { L.ev(J("badElem").b("thrown", thrown([&] { q.getIndex(e(i)); }))); break; } }
	void append(int k, int x) { t[k]->append(e(x)); L.ev(J("append").n("t", k).n("x", x)); }
	void ready(int k) { L.about("ready"); t[k]->ready(); L.ev(J("ready").n("t", k)); }
	void clear(int k) { t[k]->clear(); L.ev(J("clear").n("t", k)); }
	void copy(int a, int b) { L.about("copy"); if (R.chance(1, 2)) { F *n = new F(*t[a]); delete t[b]; t[b] = n; } else *t[b] = *t[a]; L.ev(J("copy").n("t", a).n("to", b)); }
	void saveload(int a, int b) { L.about("save/load"); std::stringstream ss; t[a]->save(ss); t[b]->load(ss); std::string rest; std::getline(ss, rest, '\0'); L.ev(J("saveload").n("t", a).n("to", b).b("ok", rest.empty())); }
	void init(int k, bool construct) { std::vector<E> v; std::vector<int> xs; size_t n = R.below(R.chance(1, 5) ? 300 : 12); int m = 1 + R.below(8); for (size_t i = 0; i < n; i++) { int x = R.below(1 + R.below(m)); xs.push_back(x); v.push_back(e(x)); } L.about("init"); if (construct) { delete t[k]; t[k] = new F(v.begin(), v.end()); } else t[k]->init(v.begin(), v.end()); L.ev(J(construct ? "construct" : "init").n("t", k).raw("xs", J::arr(xs.data(), xs.size()))); }
	// model histories
	void script(const std::vector<int>& s) { for (size_t i = 0; i < s.size(); i++) { switch (s[i]) { case 4: ready(1); table(1); break; case 5: ready(1); saveload(1, 2); table(2); break; case 6: clear(1); break; case 7: ready(1); copy(1, 2); table(2); break; case 8: copy(2, 1); break; default: append(1, s[i] - 1); } check(1); } ready(1); table(1); }
	void random() { int n = 3 + R.below(14); bool rdy[3] = { 0, true, true }; while (n--) { int k = 1 + R.below(2); switch (R.below(9)) { case 0: init(k, false); rdy[k] = true; table(k); break; case 1: init(k, true); rdy[k] = true; table(k); break; case 2: clear(k); rdy[k] = true; check(k); break; case 3: ready(k); rdy[k] = true; table(k); break; case 4: ready(k); copy(k, 3 - k); rdy[1] = rdy[2] = true; table(3 - k); table(k); break; case 5: ready(k); saveload(k, 3 - k); rdy[1] = rdy[2] = true; table(3 - k); break; case 6: ready(k); saveload(k, k); rdy[k] = true; table(k); break; default: { int m = 1 + R.below(5); while (m--) append(k, R.below(8)); rdy[k] = false; check(k); } } } ready(1); table(1); ready(2); table(2); }
	template<class X> static void go(Log& L, X x) { Run r(L); x(r); }
};
template<class X> void any(Log& L, X x) {
	switch (R.below(7)) { case 0: Run<uint8_t, size_t, false>::go(L, x); break; case 1: Run<char, size_t, false>::go(L, x); break; case 2: Run<uint16_t, size_t, true>::go(L, x); break; case 3: Run<int, size_t, true>::go(L, x); break; case 4: Run<std::string, size_t, true>::go(L, x); break; case 5: Run<uint8_t, uint32_t, false>::go(L, x); break; default: Run<std::string, uint32_t, true>::go(L, x); }
}
template<class E> struct Mk { static E at(size_t i) { return E(i * 2654435761u); } }; template<> struct Mk<std::string> { static std::string at(size_t i) { char b[32]; snprintf(b, sizeof(b), "%zx", i * 7919); return b; } };
template<class E> void bigOne(Log& L, const char *what, size_t n) { // element k of the first kinds occurs k % 5 + 1 times, one very often
	typedef cybozu::Frequency<E, size_t> F; L.start(); L.about("big"); std::map<E, size_t> c; std::vector<E> v; for (size_t k = 0; k < n; k++) for (size_t q = 0; q <= k % 5; q++) { v.push_back(Mk<E>::at(k)); } for (size_t k = 0; k < n; k++) v.push_back(Mk<E>::at(3)); for (size_t k = 0; k < v.size(); k++) c[v[k]]++; F f; if (R.chance(1, 2)) f.init(v.begin(), v.end()); else { for (size_t k = 0; k < v.size(); k++) f.append(v[k]); f.ready(); }
	if (R.chance(1, 2)) { std::stringstream ss; f.save(ss); F g; g.load(ss); f = g; } bool same = true; for (typename std::map<E, size_t>::iterator i = c.begin(); i != c.end(); ++i) { if (f.getFrequency(i->first) != i->second) same = false; size_t ix = f.getIndex(i->first); if (ix >= f.size() || !(f.getElement(ix) == i->first)) same = false; } for (size_t k = 1; k < f.size() && same; k++) if (f.getFrequency(f.getElement(k - 1)) < f.getFrequency(f.getElement(k))) same = false; bigEvent(L, what, c.size(), f.size(), same); L.end(); }
void bigAll(Log& L, const Args& a) { std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 1100000 : 140000); for (size_t i = 0; i < z.size(); i++) { switch (R.below(4)) { case 0: bigOne<int>(L, "int", z[i]); break; case 1: bigOne<uint16_t>(L, "uint16_t", z[i]); break; case 2: bigOne<std::string>(L, "string", z[i]); break; default: bigOne<uint8_t>(L, "uint8_t", z[i]); } } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out);
	std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) any(L, [&](auto& r) { r.script(sc[i]); });
	for (int i = 0; i < 300 * a.effort; i++) any(L, [](auto& r) { r.random(); });
	bigAll(L, a);
	return 0;
}
