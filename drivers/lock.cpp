// P27: mutex, critical section, scoped locks, condition variables under many schedules
#define SCHED_MAIN
#include "sched.hpp"
#include <stdexcept>
#include <cybozu/mutex.hpp>
#include <cybozu/critical_section.hpp>
#include <cybozu/condition_variable.hpp>
#include <cybozu/condition_variable_cs.hpp>
using namespace verif;
template<class M, class C> struct W { M m; C c; };
template<class M, class C> struct Job { W<M, C> *w; Log *L; std::vector<int> ops; int id;
	void e(const char *op) { L->ev(J(op).n("t", id)); L->about(op); }
	void inside() { sched::point(); sched::point(); }
	void note(const char *k) { L->ev(J("notify").n("t", id).str("k", k)); if (k[0] == 'o') w->c.notifyOne(); else w->c.notifyAll(); L->ev(J("notified").n("t", id)); }
	// locked and unlocked are recorded by the holder itself
	struct Mark { Job& j; Mark(Job& j_) : j(j_) {} ~Mark() { j.e("unlock"); } };
	void scoped(bool thr) { e("lock"); try { cybozu::thread::AutoLockT<M> al(w->m); e("locked"); Mark mk(*this); inside(); if (thr) throw std::runtime_error("x"); } catch (std::exception&) {} e("unlocked"); }
	void go() { for (size_t i = 0; i < ops.size(); i++) { sched::point(); switch (ops[i]) {
		case 1: e("lock"); w->m.lock(); e("locked"); inside(); e("unlock"); w->m.unlock(); e("unlocked"); break; case 2: scoped(false); break; case 3: scoped(true); break;
		case 4: e("lock"); w->m.lock(); e("locked"); sched::point(); e("wait"); w->c.wait(w->m); e("waited"); sched::point(); e("unlock"); w->m.unlock(); e("unlocked"); break;
		case 5: e("lock"); w->m.lock(); e("locked"); sched::point(); note("one"); e("unlock"); w->m.unlock(); e("unlocked"); break; case 6: note("one"); break; default: note("all"); } } }
	static void *run(void *p) { ((Job*)p)->go(); return 0; } };
static std::set<std::string> seen;
template<class M, class C> void once(Log& L, const std::vector<std::vector<int> >& prog, sched::Choices& ch, int pre, int spur) {
	L.start(J().n("n", prog.size()).n("spur", spur).end()); W<M, C> *w = new W<M, C>; sched::Sys s(ch, L, pre, spur); std::vector<Job<M, C> > job(prog.size()); for (size_t i = 0; i < prog.size(); i++) { job[i].w = w; job[i].L = &L; job[i].ops = prog[i]; job[i].id = (int)i + 1; s.spawn(Job<M, C>::run, &job[i], true); }
	bool ok = s.run(); std::vector<int> ids; for (size_t i = 0; i < s.stuckIds.size(); i++) ids.push_back(s.stuckIds[i] + 1); if (ok) L.ev(J("over")); else L.ev(J("stuck").nums("ts", ids)); if (!s.misuse.empty()) L.ev(J("misuse").str("what", s.misuse)); if (ok) delete w; ch.trim(); L.endOnce(seen);
}
void any(Log& L, int k, const std::vector<std::vector<int> >& prog, sched::Choices& ch, int pre, int spur) { if (k) once<cybozu::Mutex, cybozu::ConditionVariable>(L, prog, ch, pre, spur); else once<cybozu::CriticalSection, cybozu::ConditionVariableCs>(L, prog, ch, pre, spur); }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); Log L(a.out); std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { std::vector<std::vector<int> > prog; size_t p = 1; for (int t = 0; t < sc[i][0]; t++) { int n = sc[i][p++]; if (n) prog.push_back(std::vector<int>(sc[i].begin() + p, sc[i].begin() + p + n)); p += n; } if (prog.empty()) continue; for (size_t t = 0; t < prog.size(); t++) for (size_t k = 0; k < prog[t].size(); k++) if (prog[t][k] == 1) prog[t][k] = 1 + r.below(3);
		for (int k = 0; k < 2; k++) { sched::Choices ch; for (int n = 0; n < 12 * a.effort; n++) { any(L, k, prog, ch, 2, 0); if (!ch.advance()) break; } for (int n = 0; n < 5 * a.effort; n++) { sched::Choices c; c.rng = &r; any(L, k, prog, c, 100, r.below(2)); } } }
	for (int i = 0; i < 120 * a.effort; i++) { std::vector<std::vector<int> > prog(2 + r.below(3)); for (size_t t = 0; t < prog.size(); t++) { int n = 1 + r.below(3); while (n--) prog[t].push_back(1 + r.below(7)); } for (int n = 0; n < 3; n++) { sched::Choices c; c.rng = &r; any(L, r.below(2), prog, c, 100, r.below(3) == 0); } }
	return 0;
}
