// P24: parallel_for under many schedules
#define SCHED_MAIN
#include "sched.hpp"
#include <stdexcept>
#include <cybozu/parallel.hpp>
using namespace verif;
struct Odd { int x; };
template<class N> struct Body {
	Log *L; std::set<int> stop, thr; int kind;
	bool operator()(N i, N t) { long long ii = (long long)i, tt = (long long)t; sched::point(); L->ev(J("call").n("i", ii).n("t", tt)); sched::point(); sched::point(); const char *how = "ok"; if (thr.count((int)ii)) how = "throw"; else if (stop.count((int)ii)) how = "stop"; L->ev(J("ret").n("i", ii).n("t", tt).str("how", how));
		if (how[0] == 't') { switch (kind) { case 0: throw std::runtime_error("body failed"); case 1: throw std::runtime_error(""); case 2: throw Odd(); default: throw 7; } } return how[0] != 's'; }
};
template<class N> struct Run { Body<N> b; N n, tn; Log *L; static void *go(void *p) { Run *r = (Run*)p; bool th = false; r->L->about("parallel_for"); try { cybozu::parallel_for(r->b, r->n, r->tn); } catch (std::exception&) { th = true; } r->L->ev(J("end").b("thrown", th)); return 0; } };
static std::set<std::string> seen;
template<class N> void once(Log& L, int n, int tn, const std::set<int>& stop, const std::set<int>& thr, int kind, int failAt, sched::Choices& ch, int pre) {
	L.start(J().n("n", n).n("tn", tn).end()); sched::Sys s(ch, L, pre, 0); s.logSys = true; s.failAt = failAt; Run<N> r; r.b.L = r.L = &L; r.b.stop = stop; r.b.thr = thr; r.b.kind = kind; r.n = (N)n; r.tn = (N)tn; s.spawn(Run<N>::go, &r, true); bool ok = s.run(); if (!ok) L.ev(J("stuck")); int left = 0; for (size_t i = 0; i < s.th.size(); i++) if (!s.th[i]->root && !s.th[i]->joined && !s.th[i]->detached) left++; L.ev(J("left").n("threads", left)); ch.trim(); L.endOnce(seen);
}
void any(Log& L, Rng& r, int n, int tn, const std::set<int>& stop, const std::set<int>& thr, int kind, int failAt, sched::Choices& ch, int pre) { if (r.chance(1, 2)) once<size_t>(L, n, tn, stop, thr, kind, failAt, ch, pre); else if (r.chance(1, 2)) once<int>(L, n, tn, stop, thr, kind, failAt, ch, pre); else once<uint8_t>(L, n, tn, stop, thr, kind, failAt, ch, pre); }
template<class N> struct Many { std::vector<uint8_t> *c; bool *bad; N n, tn; Many(std::vector<uint8_t> *c_, bool *b, N n_, N t) : c(c_), bad(b), n(n_), tn(t) {} bool operator()(N i, N t) { if ((size_t)i >= c->size() || (size_t)t >= (size_t)tn) *bad = true; else (*c)[(size_t)i]++; return true; } static void *go(void *p) { Many *m = (Many*)p; try { cybozu::parallel_for(*m, m->n, m->tn); } catch (std::exception&) { *m->bad = true; } return 0; } };
template<class N> void bigOne(Log& L, Rng& r, size_t n, int tn) { L.start(J().n("n", 1).n("tn", 1).end()); L.about("big"); sched::Choices ch; ch.rng = &r; sched::Sys s(ch, L, 100, 0); s.logSys = false; std::vector<uint8_t> c(n); bool bad = false; Many<N> m(&c, &bad, (N)n, (N)tn); s.spawn(Many<N>::go, &m, true); bool ok = s.run(); size_t k = 0; for (size_t i = 0; i < n; i++) if (c[i] == 1) k++; bigEvent(L, "items", n, k, ok && !bad); ch.trim(); L.end(); }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); Log L(a.out); std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { std::set<int> stop, thr; if (sc[i][3] == 1) stop.insert(sc[i][2]); if (sc[i][3] == 2) thr.insert(sc[i][2]);
		sched::Choices ch; for (int k = 0; k < 12 * a.effort; k++) { once<size_t>(L, sc[i][0], sc[i][1], stop, thr, sc[i][2] % 4, -1, ch, 2); if (!ch.advance()) break; }
		for (int k = 0; k < 8 * a.effort; k++) { sched::Choices c; c.rng = &r; any(L, r, sc[i][0], sc[i][1], stop, thr, r.below(4), -1, c, 100); } }
	for (int i = 0; i < 200 * a.effort; i++) { int n = r.chance(1, 20) ? 200 + r.below(56) : r.below(12), tn = r.chance(1, 20) ? 20 + r.below(10) : r.below(7); std::set<int> stop, thr; if (r.chance(1, 3) && n) for (int k = r.below(3); k >= 0; k--) stop.insert(r.below(n)); if (r.chance(1, 3) && n) for (int k = r.below(3); k >= 0; k--) thr.insert(r.below(n)); sched::Choices c; c.rng = &r; any(L, r, n, tn, stop, thr, r.below(4), r.chance(1, 5) ? (int)r.below(tn + 1) : -1, c, 100); }
	std::vector<size_t> z = bigSizes(a, 5000000); for (size_t i = 0; i < z.size(); i++) for (int tn = 1; tn < 20; tn += 1 + r.below(6)) { bigOne<size_t>(L, r, z[i], tn); bigOne<int>(L, r, z[i], tn); }
	return 0;
}
