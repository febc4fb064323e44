// P35: aligned arrays, scoped arrays
#include <cybozu/array.hpp>
#include "verif.hpp"
using namespace verif; typedef std::string S;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static Rng *gR;
#define R (*gR)
static int64_t owned; // bytes allocated less bytes freed within the operations on arrays
struct M { int64_t b; M() : b((int64_t)__sanitizer_get_current_allocated_bytes()) {} ~M() { owned += (int64_t)__sanitizer_get_current_allocated_bytes() - b; } };
template<class T, size_t N, bool D> struct Se { typedef cybozu::AlignedArray<T, N, D> A; Log& L; A *a[4];
	Se(Log& L_) : L(L_) { L.start(); owned = 0; M m; for (int i = 1; i < 4; i++) a[i] = new A; }
	~Se() { { M m; for (int i = 1; i < 4; i++) delete a[i]; } L.ev(J("freed").n("bytes", owned)); L.end(); }
	void look(int v) { A& x = *a[v]; const A& c = x; std::vector<int> r, q; for (size_t i = 0; i < x.size(); i++) r.push_back((unsigned char)x[i] & 127); for (const T *p = c.begin(); p != c.end(); ++p) q.push_back((unsigned char)*p & 127); bool same = r == q && x.data() == x.begin() && c.data() == x.begin() && x.end() == x.begin() + x.size() && x.end() == c.end() && c.cbegin() == c.begin() && c.cend() == c.end() && (x.empty() || &c[0] == &x[0]);
		L.ev(J("look").n("v", v).nums("r", r).n("n", x.size()).b("empty", x.empty()).b("aligned", x.empty() || (uintptr_t)x.data() % N == 0).b("same", same)); }
	void resize(int v, size_t n, int c) { L.about("resize"); bool cl = c == 2 ? D : c != 0; { M m; if (c == 2) a[v]->resize(n); else a[v]->resize(n, cl); } L.ev(J("resize").n("v", v).n("n", n).b("c", cl)); }
	void set(int v, size_t i, int x) { if (i >= a[v]->size()) return; if (R.chance(1, 2)) (*a[v])[i] = T(x); else a[v]->begin()[i] = T(x); L.ev(J("set").n("v", v).n("i", i).n("x", x)); }
	void copy(int v, int w) { L.about("copy"); { M m; if (v != w && R.chance(1, 3)) { delete a[v]; a[v] = new A(*a[w]); } else *a[v] = *a[w]; } L.ev(J("copy").n("v", v).n("w", w)); }
	void move(int v, int w) { L.about("move"); { M m; if (R.chance(1, 3)) { delete a[v]; a[v] = new A(std::move(*a[w])); } else *a[v] = std::move(*a[w]); } L.ev(J("move").n("v", v).n("w", w)); }
	void swap(int v, int w) { { M m; a[v]->swap(*a[w]); } L.ev(J("swap").n("v", v).n("w", w)); }
	void clear(int v) { { M m; a[v]->clear(); } L.ev(J("clear").n("v", v)); }
	void fresh(int v, size_t n, int c) { L.about("AlignedArray"); bool cl = c == 2 ? D : c != 0; { M m; delete a[v]; a[v] = c == 2 ? new A(n) : new A(n, cl); } L.ev(J("new").n("v", v).n("n", n).b("c", cl)); }
	void huge(int v) { size_t n = sizeof(T) > 1 && R.chance(1, 2) ? (~size_t(0) / sizeof(T)) + R.below(3) : (size_t(1) << 62) + R.below(9); if (sizeof(T) == 1 && n > ~size_t(0) - 4096) n = ~size_t(0) - 4096; L.about("resize huge"); bool ok = true; { M m; try { a[v]->resize(n, R.chance(1, 2)); } catch (std::bad_alloc&) { ok = false; } } L.ev(J("huge").n("v", v).b("ok", ok)); }
	void step() { int v = 1 + R.below(3), w = 1 + (v + R.below(2)) % 3; size_t n = R.chance(1, 10) ? 100 + R.below(200) : R.chance(1, 3) ? R.below(20) : R.below(5); switch (R.below(14)) { case 0: case 1: case 2: case 3: resize(v, n, R.below(3)); break; case 4: case 5: case 6: if (a[v]->size()) set(v, R.below(a[v]->size()), R.below(128)); break; case 7: copy(v, R.chance(1, 8) ? v : w); break; case 8: move(v, w); break; case 9: swap(v, R.chance(1, 8) ? v : w); break; case 10: clear(v); break; case 11: fresh(v, n, R.below(3)); break; case 12: if (R.chance(1, 2)) huge(v); break; default: look(v); } }
	void all() { for (int v = 1; v < 4; v++) look(v); } };
template<class T, size_t N, bool D> void rnd(Log& L) { Se<T, N, D> s(L); for (int i = 0; i < 30; i++) s.step(); s.all(); }
template<class T, size_t N, bool D> void scr(Log& L, const std::vector<int>& v) { Se<T, N, D> s(L); for (size_t i = 0; i + 3 < v.size(); i += 4) { int x = v[i + 1], y = v[i + 2], z = v[i + 3]; switch (v[i]) { case 0: s.resize(x, y, z); break; case 1: s.set(x, y, z); break; case 2: s.copy(x, y); break; case 3: s.move(x, y); break; case 4: s.swap(x, y); break; default: s.clear(x); } } s.all(); }
static int live, made, failAt;
struct El { int v; char *p; El() : v(made) { if (made == failAt) throw std::bad_alloc(); made++; live++; p = new char[3]; } ~El() { live--; delete[] p; } };
void scoped(Log& L) { L.start(); owned = 0; int n = R.below(9), t = R.chance(1, 3) ? R.below(9) : -1; live = made = 0; failAt = t; bool ok = true, right = true; size_t size = 0; { M m; try { cybozu::ScopedArray<El> a(n); const cybozu::ScopedArray<El>& c = a; size = a.size(); right = live == n && a.empty() == (n == 0) && a.begin() == a.data() && c.begin() == c.data() && a.end() == a.begin() + n && c.end() == a.end(); for (int i = 0; i < n; i++) right = right && a[i].v == i && &c[i] == &a[i]; } catch (std::bad_alloc&) { ok = false; } }
	L.ev(J("scoped").n("n", n).n("t", t).b("ok", ok).n("live", live).n("made", made).n("size", size).b("right", right)); L.ev(J("freed").n("bytes", owned)); L.end(); }
template<class T, size_t N, bool D> void bigOne(Log& L, size_t n) { typedef cybozu::AlignedArray<T, N, D> A; L.start(); L.about("big"); { A x(n, true); bool ok = (uintptr_t)x.data() % N == 0; for (size_t i = 0; i < n; i++) if (x[i] != T(0)) ok = false; bigEvent(L, "new", n, x.size(), ok); for (size_t i = 0; i < n; i++) x[i] = T(i * 31 + (i >> 8)); A y(x), w; ok = true; for (size_t i = 0; i < y.size(); i++) if (y[i] != T(i * 31 + (i >> 8))) ok = false; bigEvent(L, "copy", n, y.size(), ok); w = y; ok = std::equal(w.begin(), w.end(), x.begin()); bigEvent(L, "assign", n, w.size(), ok);
	y.resize(n + n / 2 + 1, true); ok = std::equal(x.begin(), x.end(), y.begin()); for (size_t i = n; i < y.size(); i++) if (y[i] != T(0)) ok = false; bigEvent(L, "grow", n + n / 2 + 1, y.size(), ok); y.resize(n / 2, true); ok = std::equal(y.begin(), y.end(), x.begin()); bigEvent(L, "shrink", n / 2, y.size(), ok); y.resize(n, true); ok = std::equal(x.begin(), x.begin() + n / 2, y.begin()); for (size_t i = n / 2; i < n; i++) if (y[i] != T(0)) ok = false; bigEvent(L, "again", n, y.size(), ok); A v(std::move(w)); w.swap(x); bigEvent(L, "move", n, v.size(), std::equal(v.begin(), v.end(), w.begin()) && x.empty()); cybozu::ScopedArray<T> s(n); bigEvent(L, "scoped", n, s.size(), s.end() - s.begin() == (ptrdiff_t)n); } L.end(); }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out, 60); std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) switch (R.below(3)) { case 0: scr<int, 16, true>(L, sc[i]); break; case 1: scr<uint64_t, 64, false>(L, sc[i]); break; default: scr<unsigned char, 32, true>(L, sc[i]); }
	for (int i = 0; i < 60 * a.effort; i++) { rnd<int, 16, true>(L); rnd<uint64_t, 64, false>(L); rnd<unsigned char, 32, true>(L); rnd<short, 4096, false>(L); scoped(L); }
	std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 5000000 : 300000); for (size_t i = 0; i < z.size(); i++) { bigOne<int, 16, true>(L, z[i]); bigOne<uint64_t, 64, false>(L, z[i]); bigOne<unsigned char, 32, true>(L, z[i]); bigOne<short, 4096, false>(L, z[i]); }
	return 0;
}
