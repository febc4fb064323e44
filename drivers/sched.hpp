#pragma once
// A cooperative scheduler that owns the threads of the code under test. The pthread functions
// called by that code are replaced: they keep their meaning (POSIX), but every call is a point
// where another thread may run, a waiter to wake is chosen by the schedule, condition waits may
// wake up spuriously, and pthread_create may fail. One thread runs at a time, so the events
// recorded have a total order. Schedules are enumerated (depth first, limited number of
// preemptions) or drawn at random; each is replayable from its list of choices.
#include <pthread.h>
#include <semaphore.h>
#include <setjmp.h>
#include <dlfcn.h>
#include <errno.h>
#include <map>
#include <vector>
#include <set>
#include <string>
#include "verif.hpp"
namespace sched {
enum Kind { RUN, MUTEX, COND, JOIN, GATE };
struct Sys;
struct Th { Sys *sys; int id; sem_t sem; Kind kind; const void *obj; int target; bool woken, done, spurious, timedOut, timed, detached, joined, started, root; pthread_t real; void *(*fn)(void*); void *arg; jmp_buf jb; Th() : kind(RUN), obj(0), target(-1), woken(false), done(false), spurious(false), timedOut(false), timed(false), detached(false), joined(false), started(false), root(false), fn(0), arg(0) { sem_init(&sem, 0, 0); } };
typedef int (*CreateFn)(pthread_t*, const pthread_attr_t*, void *(*)(void*), void*);
template<class F> F next(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
// choices: a prefix is replayed, then the default (0) or random
struct Choices { std::vector<int> pick, num; size_t at; verif::Rng *rng; Choices() : at(0), rng(0) {}
	int get(int n) { if (n <= 1) return 0; if (at < pick.size()) { num[at] = n; int c = pick[at++]; return c < n ? c : n - 1; } int c = rng ? (int)rng->below(n) : 0; pick.push_back(c); num.push_back(n); at++; return c; }
	bool advance() { while (!pick.empty()) { if (pick.back() + 1 < num.back()) { pick.back()++; at = 0; return true; } pick.pop_back(); num.pop_back(); } return false; }
	void trim() { pick.resize(at); num.resize(at); } };
struct Sys; 
extern __thread Th *self_;
extern Sys *cur_;
struct Sys {
	std::vector<Th*> th; std::map<const void*, int> owner; std::map<const void*, std::vector<Th*> > waiters; Choices *ch; verif::Log *L; sem_t over; bool killing; int preempt, spur, failAt, creates; bool stuck; int live; bool logSys; std::vector<int> stuckIds; std::string misuse; bool holdNew;
	Sys(Choices& c, verif::Log& l, int preemptions, int spurious) : ch(&c), L(&l), killing(false), preempt(preemptions), spur(spurious), failAt(-1), creates(0), stuck(false), live(0), logSys(false), holdNew(false) { sem_init(&over, 0, 0); }
	~Sys() { for (size_t i = 0; i < th.size(); i++) delete th[i]; }
	bool ready(Th *t) { if (t->done) return false; switch (t->kind) { case RUN: return true; case MUTEX: return owner.find(t->obj) == owner.end() || owner[t->obj] < 0; case COND: return t->woken; case JOIN: return th[t->target]->done; case GATE: return *(const volatile bool*)t->obj; } return false; }
	// the token holder gives it away (or keeps it). returns when scheduled again
	void sw(Th *me, bool leaving = false) {
		if (killing) { if (!leaving) bail(me); finish(me); return; }
		if (leaving) me->done = true;
		std::vector<Th*> opt; std::vector<int> how; bool meReady = !leaving && ready(me);
		if (meReady) { opt.push_back(me); how.push_back(0); }
		if (!meReady || preempt > 0) for (size_t i = 0; i < th.size(); i++) if (th[i] != me && ready(th[i])) { opt.push_back(th[i]); how.push_back(0); }
		if (spur > 0) for (size_t i = 0; i < th.size(); i++) if (!th[i]->done && th[i]->kind == COND && !th[i]->woken && !(th[i] == me && leaving)) { opt.push_back(th[i]); how.push_back(1); }
		if (opt.empty()) { bool timed = false; for (size_t i = 0; i < th.size() && !timed; i++) if (!th[i]->done && th[i]->kind == COND && th[i]->timed && !th[i]->woken) { timed = true; opt.push_back(th[i]); how.push_back(2); } }
		if (opt.empty() || (opt.size() > 0 && onlySpurious(how))) { if (opt.empty() || !ch->get(2)) { // nobody can run
			bool all = true; for (size_t i = 0; i < th.size(); i++) if (!th[i]->done && !(th[i] == me && leaving)) all = false;
			if (all) { finish(me); return; }
			stuck = true; stuckIds.clear(); for (size_t i = 0; i < th.size(); i++) if (!th[i]->done && !(leaving && th[i] == me)) stuckIds.push_back((int)i); killing = true; if (leaving) { me->done = true; } killNext(); if (!leaving) bail(me); else return; return; } }
		int c = ch->get((int)opt.size()); Th *t = opt[c];
		if (how[c]) { if (how[c] == 1) spur--; std::vector<Th*>& w = waiters[t->target >= 0 ? (const void*)0 : t->obj]; for (size_t i = 0; i < w.size(); i++) if (w[i] == t) { w.erase(w.begin() + i); break; } t->woken = true; if (how[c] == 2 || t->timed) t->timedOut = true; }
		if (meReady && t != me) preempt--;
		if (leaving) me->done = true;
		if (t == me) return;
		sem_post(&t->sem); if (leaving) return; wait(me);
	}
	static bool onlySpurious(const std::vector<int>& how) { for (size_t i = 0; i < how.size(); i++) if (how[i] == 0) return false; return true; }
	void wait(Th *me) { while (sem_wait(&me->sem)) {} if (killing) bail(me); }
	void bail(Th *me) { longjmp(me->jb, 1); }
	void killNext() { for (size_t i = 0; i < th.size(); i++) if (!th[i]->done && th[i] != self_) { sem_post(&th[i]->sem); return; } if (!self_ || self_->done) sem_post(&over); }
	void finish(Th *me) { me->done = true; for (size_t i = 0; i < th.size(); i++) if (!th[i]->done) { if (killing) { sem_post(&th[i]->sem); } return; } sem_post(&over); }
	static void *entry(void *p) { Th *t = (Th*)p; self_ = t; Sys *s = t->sys; while (sem_wait(&t->sem)) {} if (!s->killing) { t->started = true; if (setjmp(t->jb) == 0) t->fn(t->arg); } self_ = t; if (s->killing) { s->finish(t); } else s->sw(t, true); self_ = 0; return 0; }
	Th *spawn(void *(*fn)(void*), void *arg, bool root) { Th *t = new Th; t->sys = this; t->id = (int)th.size(); t->fn = fn; t->arg = arg; t->root = root; th.push_back(t); static CreateFn real = next<CreateFn>("pthread_create"); pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 18); int e = real(&t->real, &a, entry, t); pthread_attr_destroy(&a); if (e) { fprintf(stderr, "sched: cannot create a thread (%d)\n", e); _exit(3); } return t; }
	// run all root threads to the end; true unless some are stuck for ever
	bool run() { cur_ = this; bool any = false; for (size_t i = 0; i < th.size() && !any; i++) any = true; if (!any) { cur_ = 0; return true; } int c = ch->get((int)th.size()); sem_post(&th[c]->sem); while (sem_wait(&over)) {} typedef int (*J)(pthread_t, void**); static J rj = next<J>("pthread_join"); for (size_t i = 0; i < th.size(); i++) rj(th[i]->real, 0); cur_ = 0; return !stuck; }
	Th *find(pthread_t h) { for (size_t i = 0; i < th.size(); i++) if (!th[i]->root && (pthread_t)(0x7e0000 + i) == h) return th[i]; return 0; }
};
inline bool managed() { return cur_ && self_; }
inline void point() { if (managed()) cur_->sw(self_); } // a place where others may run
inline int me() { return self_ ? self_->id : -1; }
#ifdef SCHED_MAIN
__thread Th *self_ = 0;
Sys *cur_ = 0;
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) throw() { typedef int (*F)(pthread_mutex_t*); if (!managed()) { static F f = next<F>("pthread_mutex_lock"); return f(m); } Sys *s = cur_; Th *t = self_; t->kind = MUTEX; t->obj = m; t->target = -1; s->sw(t); t->kind = RUN; s->owner[m] = t->id; return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) throw() { typedef int (*F)(pthread_mutex_t*); if (!managed()) { static F f = next<F>("pthread_mutex_trylock"); return f(m); } Sys *s = cur_; s->sw(self_); if (s->owner.count(m) && s->owner[m] >= 0) return EBUSY; s->owner[m] = self_->id; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) throw() { typedef int (*F)(pthread_mutex_t*); if (!managed()) { static F f = next<F>("pthread_mutex_unlock"); return f(m); } Sys *s = cur_; if (!s->owner.count(m) || s->owner[m] != self_->id) s->misuse = "unlock of a mutex not held"; s->owner[m] = -1; s->sw(self_); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) throw() { if (managed()) { Sys *s = cur_; if (s->owner.count(m) && s->owner[m] >= 0) s->misuse = "a locked mutex is destroyed"; s->owner.erase(m); } return 0; }
__attribute__((no_sanitize_thread, noinline)) static void store(pthread_t *h, pthread_t v) { *h = v; }
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) { Sys *s = cur_; Th *t = self_; s->sw(t); if (!s->owner.count(m) || s->owner[m] != t->id) s->misuse = "condition wait without the mutex"; s->owner[m] = -1; s->waiters[c].push_back(t); t->kind = COND; t->obj = c; t->target = -1; t->woken = t->timedOut = false; t->timed = timed; s->sw(t); bool to = t->timedOut; t->kind = MUTEX; t->obj = m; if (!s->ready(t)) s->sw(t); t->kind = RUN; s->owner[m] = t->id; return to ? ETIMEDOUT : 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { typedef int (*F)(pthread_cond_t*, pthread_mutex_t*); if (!managed()) { static F f = next<F>("pthread_cond_wait"); return f(c, m); } return condWait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*); if (!managed()) { static F f = next<F>("pthread_cond_timedwait"); return f(c, m, ts); } return condWait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*); if (!managed()) { static F f = next<F>("pthread_cond_clockwait"); return f(c, m, k, ts); } return condWait(c, m, true); }
static int notify(pthread_cond_t *c, bool all) { Sys *s = cur_; s->sw(self_); std::vector<Th*>& w = s->waiters[c]; if (w.empty()) return 0; if (all) { for (size_t i = 0; i < w.size(); i++) w[i]->woken = true; w.clear(); } else { int k = s->ch->get((int)w.size()); w[k]->woken = true; w.erase(w.begin() + k); } return 0; }
int pthread_cond_signal(pthread_cond_t *c) throw() { typedef int (*F)(pthread_cond_t*); if (!managed()) { static F f = next<F>("pthread_cond_signal"); return f(c); } return notify(c, false); }
int pthread_cond_broadcast(pthread_cond_t *c) throw() { typedef int (*F)(pthread_cond_t*); if (!managed()) { static F f = next<F>("pthread_cond_broadcast"); return f(c); } return notify(c, true); }
int pthread_cond_destroy(pthread_cond_t *) throw() { return 0; }
int pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*fn)(void*), void *arg) throw() { if (!managed()) { static CreateFn f = next<CreateFn>("pthread_create"); return f(h, a, fn, arg); }
	Sys *s = cur_; s->sw(self_); int n = s->creates++; if (n == s->failAt) { store(h, (pthread_t)0x7d0000); if (s->logSys) s->L->ev(verif::J("create").n("t", me()).n("h", -1)); return EAGAIN; } // POSIX: the location is undefined then
	Th *t = s->spawn(fn, arg, false); store(h, (pthread_t)(0x7e0000 + t->id)); if (s->logSys) s->L->ev(verif::J("create").n("t", me()).n("h", t->id)); s->sw(self_); return 0; }
int pthread_join(pthread_t h, void **r) { typedef int (*F)(pthread_t, void**); if (!managed()) { static F f = next<F>("pthread_join"); return f(h, r); }
	Sys *s = cur_; Th *t = s->find(h); if (t == 0) { if (s->logSys) s->L->ev(verif::J("join").n("t", me()).n("h", -1)); return ESRCH; }
	if (s->logSys) s->L->ev(verif::J("join").n("t", me()).n("h", t->id)); self_->kind = JOIN; self_->target = t->id; s->sw(self_); self_->kind = RUN; self_->target = -1; t->joined = true; if (r) *r = 0; if (s->logSys) s->L->ev(verif::J("joined").n("t", me()).n("h", t->id)); return 0; }
int pthread_detach(pthread_t h) throw() { typedef int (*F)(pthread_t); if (!managed()) { static F f = next<F>("pthread_detach"); return f(h); } Sys *s = cur_; s->sw(self_); Th *t = s->find(h); if (s->logSys) s->L->ev(verif::J("detach").n("t", me()).n("h", t ? t->id : -1)); if (!t) return ESRCH; t->detached = true; return 0; }
}
#endif
} // sched
// Built with SCHED_MEM the compiler announces every memory access; those to a watched object
// are scheduling points too, so that accesses the code does not protect can interleave.
namespace sched { struct Watch { const char *lo, *hi; }; extern Watch watch[4]; inline void watchObj(int i, const void *p, size_t n) { watch[i].lo = (const char*)p; watch[i].hi = (const char*)p + n; } inline void unwatch() { for (int i = 0; i < 4; i++) watch[i].lo = watch[i].hi = 0; } }
#ifdef SCHED_MAIN
namespace sched { Watch watch[4]; }
#ifdef SCHED_MEM
#define NOSAN __attribute__((no_sanitize_thread, noinline))
namespace sched { extern "C" NOSAN void sched_mem(const void *p) { if (!cur_ || !self_) return; const char *q = (const char*)p; for (int i = 0; i < 4; i++) if (q >= watch[i].lo && q < watch[i].hi) { cur_->sw(self_); return; } } }
#endif
#endif
