// P25: ThreadBase under many schedules; Sleep under interruptions
#define SCHED_MAIN
#include "sched.hpp"
#include <time.h>
#include <cybozu/thread.hpp>
using namespace verif;
static int intr; static long long sleptNs; static bool fakeSleep; static Rng *gR;
extern "C" int nanosleep(const struct timespec *q, struct timespec *rem) { // time passes only here
	if (!fakeSleep) return 0; long long want = q->tv_sec * 1000000000LL + q->tv_nsec; if (q->tv_nsec < 0 || q->tv_nsec >= 1000000000 || q->tv_sec < 0) { errno = EINVAL; sleptNs = -1; return -1; } if (intr > 0) { intr--; long long part = want ? (long long)(gR->u64() % (unsigned long long)want) : 0; sleptNs += part; if (rem) { rem->tv_sec = (want - part) / 1000000000LL; rem->tv_nsec = (want - part) % 1000000000LL; } errno = EINTR; return -1; } sleptNs += want; return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec *q, struct timespec *rem) { return nanosleep(q, rem) ? errno : 0; }
struct Obj; 
struct World { Log *L; Obj *o; int done; bool gate; bool started; int clients; bool self; volatile bool fin; };
struct Obj : cybozu::ThreadBase { World *w; int id; Obj(World *w_, int i) : w(w_), id(i) {}
	void threadEntry() { w->started = true; w->L->ev(J("run").n("h", sched::me()).n("o", id)); sched::point(); if (w->self) { call("detach"); bool r = detachThread(); ret(r); } sched::point(); w->L->ev(J("fin").n("h", sched::me())); w->fin = true; }
	void call(const char *f) { w->L->ev(J("call").n("t", sched::me()).str("f", f).n("o", id)); w->L->about(f); } void ret(bool r) { w->L->ev(J("ret").n("t", sched::me()).b("r", r)); } };
struct Client { World *w; std::vector<int> ops; bool owner; };
static void waitFor(volatile bool *b) { sched::self_->kind = sched::GATE; sched::self_->obj = (const void*)b; sched::cur_->sw(sched::self_); sched::self_->kind = sched::RUN; }
static void *client(void *p) { Client *c = (Client*)p; World *w = c->w; static const int stacks[] = { 0, 0, 65536 }; volatile bool began = false;
	if (!c->owner) { waitFor(&w->gate); if (!w->o) return 0; }
	for (size_t i = 0; i < c->ops.size(); i++) { sched::point(); Obj *o = w->o; bool r; switch (c->ops[i]) { case 1: o->call("begin"); r = o->beginThread(stacks[gR->below(3)]); o->ret(r); began = r; w->gate = true; break; case 2: o->call("join"); r = gR->chance(1, 4) ? o->joinThread(1000) : o->joinThread(); o->ret(r); break; default: o->call("detach"); r = o->detachThread(); o->ret(r); } }
	if (!c->owner) { if (++w->done == w->clients) {} return 0; }
	return began ? 0 : (void*)0;
}
struct Owner { Client c; World *w; int clients; volatile bool all; };
static Owner *gOwner;
static void *ownerBody(void *p) { Owner *o = (Owner*)p; client(&o->c); World *w = o->w; w->gate = true; // every other client is done before the object goes; the body has begun by then
	if (o->clients) waitFor(&o->all); bool viaJoin = true; (void)viaJoin; if (w->L) { if (!w->started) { volatile bool *s = &w->started; bool created = sched::cur_->th.size() > size_t(1 + o->clients); if (created) waitFor(s); } } Obj *x = w->o; bool created = sched::cur_->th.size() > size_t(1 + o->clients); if (created && gR->chance(1, 2)) waitFor(&w->fin); bool det = false; for (size_t i = 0; i < sched::cur_->th.size(); i++) if (sched::cur_->th[i]->detached) det = true; if (det || w->self) if (created) waitFor(&w->fin); x->call("destroy"); int id = x->id; delete x; w->L->ev(J("ret").n("t", sched::me()).b("r", true)); (void)id; return 0; }
static void *other(void *p) { Client *c = (Client*)p; client(c); if (c->w->done == c->w->clients) gOwner->all = true; return 0; }
static std::set<std::string> seen;
void once(Log& L, bool self, const std::vector<std::vector<int> >& prog, int failAt, sched::Choices& ch, int pre) {
	L.start(); World w; w.L = &L; w.o = new Obj(&w, 1); sched::watchObj(0, static_cast<cybozu::ThreadBase*>(w.o), sizeof(cybozu::ThreadBase)); w.done = 0; w.gate = w.started = w.fin = false; w.self = self; w.clients = (int)prog.size() - 1; sched::Sys s(ch, L, pre, 0); s.logSys = true; s.failAt = failAt; Owner ow; ow.w = &w; ow.clients = w.clients; ow.all = false; ow.c.w = &w; ow.c.ops = prog[0]; ow.c.owner = true; gOwner = &ow; s.spawn(ownerBody, &ow, true); std::vector<Client> cl(w.clients); for (int i = 0; i < w.clients; i++) { cl[i].w = &w; cl[i].ops = prog[i + 1]; cl[i].owner = false; s.spawn(other, &cl[i], true); }
	bool ok = s.run(); L.ev(J(ok ? "over" : "stuck")); ch.trim(); L.endOnce(seen);
}
// real threads: how large is the stack
struct Stk : cybozu::ThreadBase { long size; int runs; Stk() : size(-1), runs(0) {} void threadEntry() { pthread_attr_t at; if (pthread_getattr_np(pthread_self(), &at) == 0) { void *p; size_t n = 0; pthread_attr_getstack(&at, &p, &n); pthread_attr_destroy(&at); size = (long)n; } runs++; } };
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out); std::vector<std::vector<int> > sc = loadScript(a.script); if (!freopen("/dev/null", "w", stderr)) return 2;
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { std::vector<std::vector<int> > prog; size_t p = 1; for (int c = 0; c < 3; c++) { int n = sc[i][p++]; std::vector<int> v(sc[i].begin() + p, sc[i].begin() + p + n); p += n; if (c == 0 || n) prog.push_back(v); }
		sched::Choices ch; for (int k = 0; k < 25 * a.effort; k++) { once(L, sc[i][0], prog, -1, ch, 2); if (!ch.advance()) break; } for (int k = 0; k < 10 * a.effort; k++) { sched::Choices c; c.rng = &r; once(L, sc[i][0], prog, r.chance(1, 6) ? 0 : -1, c, 100); } }
	for (int i = 0; i < 20; i++) { static const int q[] = { 0, 0, 1, 1000, 16383, 65536, 100000, 262144, 1 << 20, 16 << 20 }; int n = q[r.below(10)] + (r.chance(1, 3) ? r.below(5000) : 0); if (n > 16000 && n < 65536) n = 65536; L.start(); Stk s; L.about("beginThread"); bool ok = s.beginThread(n); if (ok) s.joinThread(); L.ev(J("stack").n("asked", n).b("ok", ok).n("size", s.size).n("runs", s.runs)); L.end(); }
	fakeSleep = true; for (int i = 0; i < 40 * a.effort; i++) { L.start(); for (int k = 0; k < 4; k++) { int ms = r.chance(1, 3) ? r.below(1000) : r.chance(1, 2) ? 999 + r.below(3) : r.below(1500000); intr = r.below(4); sleptNs = 0; L.about("Sleep"); cybozu::Sleep(ms); L.ev(J("sleep").n("asked", ms).n("slept", sleptNs < 0 ? -1 : sleptNs / 1000000)); } L.end(); }
	return 0;
}
