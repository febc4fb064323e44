// P34: top score table
#include <algorithm>
#include <cybozu/nlp/top_score.hpp>
#include "verif.hpp"
using namespace verif; typedef std::string S;
static Rng *gR;
#define R (*gR)
static int objs[4096];
template<class T> T mk(int i) { return T(i); } template<> int *mk<int*>(int i) { return objs + i; }
template<class T> int64_t un(T v) { return (int64_t)v; } template<> int64_t un<int*>(int *p) { return p >= objs && p < objs + 4096 ? p - objs : -5; }
template<class T, class D> struct Se { typedef cybozu::nlp::TopScore<T, D> TS; Log& L; TS *t; int seq;
	static S cfg(int cap) { return J().n("cap", cap).end(); }
	Se(Log& L_, int cap, bool dflt) : L(L_), seq(0) { L.start(cfg(cap)); L.about("TopScore"); t = dflt ? new TS : new TS(cap); } ~Se() { delete t; L.end(); }
	void add(int k) { D s = D(k) / (D(0.5) == D(0) ? D(1) : D(2)); L.about("add"); seq++; t->add(s, mk<T>(seq)); L.ev(J("add").n("s", k).n("x", seq)); }
	void table() { L.about("getTable"); const typename TS::Table& r = t->getTable(); std::vector<S> l; for (size_t i = 0; i < r.size(); i++) { double d = (double)r[i].score; if (D(0.5) != D(0)) d *= 2; l.push_back("[" + J::num(d < -1e9 || d > 1e9 ? 1000000007 : (int64_t)d) + "," + J::num(un<T>(r[i].idx)) + "]"); } L.ev(J("table").raw("r", jlist(l))); }
	void size(int cap) { L.about("setSize"); t->setSize(cap); L.ev(J("size").n("cap", cap)); } };
template<class T, class D> void rnd(Log& L) { bool d = R.chance(1, 6); int cap = d ? 10 : R.chance(1, 4) ? R.below(30) : R.below(5); Se<T, D> s(L, cap, d); int n = 5 + R.below(R.chance(1, 5) ? 80 : 20), range = R.chance(1, 3) ? 3 : R.chance(1, 2) ? 12 : 100000; int dir = R.below(4), x = 0;
	for (int i = 0; i < n; i++) { if (R.chance(1, 12)) s.table(); if (R.chance(1, 30)) s.size(R.below(6)); x = dir == 0 ? x + (int)R.below(3) : dir == 1 ? x - (int)R.below(3) : R.range(-range, range); s.add(x); } s.table(); if (R.chance(1, 2)) { s.add(x); s.table(); } }
template<class T, class D> void scr(Log& L, const std::vector<int>& v) { Se<T, D> s(L, v[0], false); for (size_t i = 2; i < v.size(); i++) { if (v[1] == (int)i - 2) s.table(); s.add(v[i]); } s.table(); }
void bigOne(Log& L, size_t n) { Se<size_t, double> s(L, 1, false); L.about("big"); size_t caps[] = { 10, n / 2, n, n + 5, 1000 }; for (int q = 0; q < 5; q++) { cybozu::nlp::TopScore<size_t, double> t(caps[q]); std::vector<std::pair<double, size_t> > w; int dir = R.below(3); for (size_t i = 0; i < n; i++) { double d = dir == 0 ? double(i) : dir == 1 ? -double(i) : double(R.below(1 << 30)) + i * 1e-7; t.add(d, i); w.push_back(std::make_pair(-d, i)); } std::sort(w.begin(), w.end()); if (w.size() > caps[q]) w.resize(caps[q]); const cybozu::nlp::TopScore<size_t, double>::Table& r = t.getTable(); bool ok = true; for (size_t i = 0; i < r.size() && i < w.size(); i++) if (r[i].score != -w[i].first || r[i].idx != w[i].second) ok = false; bigEvent(L, "table", w.size(), r.size(), ok); } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out, 60); std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) switch (R.below(3)) { case 0: scr<int, double>(L, sc[i]); break; case 1: scr<int*, float>(L, sc[i]); break; default: scr<size_t, int>(L, sc[i]); }
	for (int i = 0; i < 150 * a.effort; i++) { rnd<int, double>(L); rnd<int*, float>(L); rnd<size_t, int>(L); }
	std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 600000 : 70000); for (size_t i = 0; i < z.size(); i++) bigOne(L, z[i]);
	return 0;
}
