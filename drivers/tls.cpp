// P29: thread-local slots; threads take turns, the system's keys are counted and can run out
#include <dlfcn.h>
#include <semaphore.h>
#include <errno.h>
#include <set>
#include <cybozu/tls.hpp>
#include "verif.hpp"
using namespace verif;
// the system: keys in use by the code under test, scripted refusals
static bool armed, failCreate, failSet, hard; static int keys; static std::set<pthread_key_t> held;
template<class F> F real(const char *n) { static F f = 0; if (!f) f = (F)dlsym(RTLD_NEXT, n); return f; }
extern "C" int pthread_key_create(pthread_key_t *k, void (*d)(void*)) { typedef int (*F)(pthread_key_t*, void (*)(void*)); static F f = (F)dlsym(RTLD_NEXT, "pthread_key_create"); if (armed && failCreate) { hard = true; return EAGAIN; } int r = f(k, d); if (armed) { if (r) hard = true; else held.insert(*k); } return r; }
extern "C" int pthread_key_delete(pthread_key_t k) { typedef int (*F)(pthread_key_t); static F f = (F)dlsym(RTLD_NEXT, "pthread_key_delete"); int r = f(k); if (r == 0) held.erase(k); return r; }
extern "C" int pthread_setspecific(pthread_key_t k, const void *v) { typedef int (*F)(pthread_key_t, const void*); static F f = (F)dlsym(RTLD_NEXT, "pthread_setspecific"); if (armed && failSet) { hard = true; return ENOMEM; } return f(k, v); }
const int NT = 3;
struct Slot { cybozu::Tls *o; bool raw; cybozu::tls::TlsIndex i; Slot() : o(0), raw(false), i(0) {} };
struct Box { std::vector<Slot> s; } box;
struct Cmd { int op, k; long x; bool fail; long r; bool h; };
static void act(Cmd& c) {
	Slot& s = box.s[c.k]; armed = true; hard = false; failCreate = c.fail && c.op == 1; failSet = c.fail && c.op == 3;
	switch (c.op) {
	case 1: if (s.raw) s.i = cybozu::tls::Init(); else s.o = new cybozu::Tls; break;
	case 2: if (s.raw) cybozu::tls::Term(s.i); else { delete s.o; s.o = 0; } break;
	case 3: c.r = s.raw ? cybozu::tls::SetValue(s.i, (void*)c.x) : s.o->set((void*)c.x); break;
	default: c.r = (long)(s.raw ? cybozu::tls::GetValue(s.i) : s.o->get()); }
	c.h = hard; armed = failCreate = failSet = false;
}
struct Worker { pthread_t th; sem_t go, done; Cmd *c; bool up; Worker() : up(false) { sem_init(&go, 0, 0); sem_init(&done, 0, 0); }
	static void *run(void *p) { Worker *w = (Worker*)p; for (;;) { while (sem_wait(&w->go)) {} if (!w->c) return 0; act(*w->c); sem_post(&w->done); } }
	void start() { if (!up) { pthread_create(&th, 0, run, this); up = true; } }
	void stop() { if (!up) return; c = 0; sem_post(&go); pthread_join(th, 0); up = false; }
	void call(Cmd& x) { start(); c = &x; sem_post(&go); while (sem_wait(&done)) {} } } w[NT + 1];
struct Se { Log& L; std::vector<int> live; int ns;
	Se(Log& L_, int ns_) : L(L_), live(ns_ + 1), ns(ns_) { box.s.assign(ns + 1, Slot()); L.start(J().n("nt", NT).n("ns", ns).end()); }
	~Se() { for (int k = 1; k <= ns; k++) del(1, k); keysEv(); for (int t = 1; t <= NT; t++) w[t].stop(); L.end(); }
	void keysEv() { L.ev(J("keys").n("r", held.size())); }
	long go(int t, int op, int k, long x, bool fail, bool& h) { Cmd c; c.op = op; c.k = k; c.x = x; c.fail = fail; c.r = 0; static const char *nm[] = { "", "new", "del", "set", "get" }; L.about(nm[op]); w[t].call(c); h = c.h; return c.r; }
	void mk(int t, int k, bool raw, bool fail) { if (live[k]) return; bool h; live[k] = 1; box.s[k].raw = raw; go(t, 1, k, 0, fail, h); L.ev(J("new").n("k", k).b("hard", h)); }
	void del(int t, int k) { if (!live[k]) return; bool h; go(t, 2, k, 0, false, h); live[k] = 0; L.ev(J("del").n("k", k)); }
	void set(int t, int k, long x, bool fail) { if (!live[k]) return; bool h; long r = go(t, 3, k, x, fail, h); L.ev(J("set").n("k", k).n("t", t).n("x", x).b("hard", h).b("r", r != 0)); }
	void get(int t, int k) { if (!live[k]) return; bool h; long r = go(t, 4, k, 0, false, h); L.ev(J("get").n("k", k).n("t", t).n("r", r)); }
	void exit(int t) { w[t].stop(); L.ev(J("exit").n("t", t)); }
	void all() { for (int k = 1; k <= ns; k++) for (int t = 1; t <= NT; t++) get(t, k); }
};
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); Log L(a.out, 60); std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i) && (a.effort > 1 || r.chance(1, 8))) { Se s(L, 2); bool raw = r.chance(1, 3); for (size_t j = 0; j + 2 < sc[i].size(); j += 3) { int op = sc[i][j], k = sc[i][j + 1], t = sc[i][j + 2]; switch (op) { case 1: s.mk(1 + r.below(NT), k, raw, false); break; case 2: s.del(1 + r.below(NT), k); break; case 3: s.set(t, k, j / 3 + 1, false); break; case 4: s.get(t, k); break; default: s.exit(t); } } s.all(); }
	for (int i = 0; i < 150 * a.effort; i++) { int ns = r.chance(1, 10) ? 40 : 1 + r.below(5); Se s(L, ns); int lv = r.below(3); for (int n = 5 + r.below(40); n--;) { int t = 1 + r.below(NT), k = 1 + r.below(ns); bool f = lv == 2 && r.chance(1, 5); switch (r.below(10)) { case 0: case 1: s.mk(t, k, r.chance(1, 3), f); break; case 2: s.del(t, k); break; case 3: s.exit(t); break; case 4: s.keysEv(); break; case 5: case 6: s.set(t, k, r.chance(1, 6) ? 0 : 1 + r.below(1000000), f); break; default: s.get(t, k); } } if (ns < 6) s.all(); }
	// many slots in the life of the program, none of them at the same time
	for (int i = 0; i < 1; i++) { Se s(L, 2); s.mk(1, 2, false, false); s.set(2, 2, 77, false); for (int n = 0; n < 1200; n++) { s.mk(1 + n % NT, 1, n % 3 == 2, false); s.get(1 + (n + 1) % NT, 1); s.set(1 + n % NT, 1, n + 1, false); s.get(1 + n % NT, 1); s.del(1 + r.below(NT), 1); } s.get(2, 2); }
	// more slots than there are keys
	{ Se s(L, 1100); for (int k = 1; k <= 1100; k++) s.mk(1, k, k % 7 == 0, false); s.keysEv(); for (int k = 1; k <= 1100; k += k < 990 ? 37 : 1) { s.get(1, k); s.set(1 + k % NT, k, k, false); } for (int k = 1; k <= 1100; k += k < 990 ? 37 : 3) for (int t = 1; t <= NT; t++) s.get(t, k); for (int k = 1; k <= 1100; k += 2) s.del(1, k); s.mk(1, 1, false, false); s.set(2, 1, 5, false); s.get(2, 1); s.get(1, 1); }
	return 0;
}
