// P44: requests to quit. Each history runs in a child of its own, which records in shared memory whom quit() was called on.
#include <cybozu/quit_signal_handler.hpp>
#include <sys/mman.h>
#include <sys/wait.h>
#include <pthread.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include "verif.hpp"
using namespace verif;
static Rng *gR;
#define R (*gR)
struct Rec { int kind, a, s, inner[4], ni, over, b, calls[6000], nc, top, woke; }; // kind 1: install, 2: signal, 3: signals while blocked
struct Shared { int n; Rec r[12]; };
static void install(int a, bool b); static Shared *sh; static Rec *cur; static volatile int depth; static volatile bool first;
static void told(int who) { depth = depth + 1; if (depth > cur->top) cur->top = depth; if (cur->nc < 6000) cur->calls[cur->nc++] = who; if (first) { first = false; for (int i = 0; i < cur->ni; i++) raise(cur->inner[i]); if (cur->over) install(cur->over, cur->b != 0); } depth = depth - 1; }
struct A { int id; void quit() { told(id); } };
struct B { int pad, id; void quit() throw() { told(id); } };
static A a1 = { 1 }, a2 = { 2 }; static B b2 = { 0, 2 }, b3 = { 0, 3 };
static void install(int a, bool b) { if (a == 1) cybozu::QuitSignalHandler<A> h(a1); else if (a == 3) cybozu::QuitSignalHandler<B> h(b3); else if (b) cybozu::QuitSignalHandler<B> h(b2); else cybozu::QuitSignalHandler<A> h(a2); }
struct Item { int kind, a, s; std::vector<int> inner; bool b, kill; int over; Item(int k, int x) : kind(k), a(x), s(x), b(false), kill(false), over(0) {} };
static pthread_t mainThread; static int pfd[2]; static volatile int done;
static void *poker(void *p) { int s = *(int*)p; sigset_t m; sigfillset(&m); for (int i = 0; i < 5000 && !done; i++) { pthread_kill(mainThread, s); struct timespec t = { 0, 1000000 }; nanosleep(&t, 0); } if (!done) { char c = 'x'; if (write(pfd[1], &c, 1) != 1) _exit(3); } return 0; }
static void child(const std::vector<Item>& v) {
	Log::detach(); mainThread = pthread_self();
	for (size_t i = 0; i < v.size(); i++) { const Item& it = v[i]; cur = &sh->r[i]; sh->n = (int)i + 1; cur->kind = it.kind; cur->a = it.a; cur->s = it.s; first = false;
		if (it.kind == 1) install(it.a, it.b);
		else if (it.kind == 2) { cur->ni = (int)it.inner.size(); for (int k = 0; k < cur->ni; k++) cur->inner[k] = it.inner[k]; cur->over = it.over; cur->b = it.b; first = true; if (it.kill) kill(getpid(), it.s); else raise(it.s); }
		else { if (pipe(pfd)) _exit(3); done = 0; pthread_t t; sigset_t all, old; sigfillset(&all); pthread_sigmask(SIG_SETMASK, &all, &old); int s = it.s; if (pthread_create(&t, 0, poker, &s)) _exit(3); pthread_sigmask(SIG_SETMASK, &old, 0); char c; ssize_t r = read(pfd[0], &c, 1); cur->woke = r == -1 && errno == EINTR; done = 1; pthread_join(t, 0); close(pfd[0]); close(pfd[1]); } }
	_exit(7); }
static void session(Log& L, const std::vector<Item>& v) {
	L.start(J().end()); L.about("QuitSignalHandler"); memset(sh, 0, sizeof(int)); memset(sh->r, 0, sizeof(Rec) * v.size()); pid_t p = fork(); if (p < 0) exit(2); if (p == 0) child(v);
	int st; while (waitpid(p, &st, 0) != p) ; 
	for (int i = 0; i < sh->n; i++) { Rec& r = sh->r[i]; std::vector<int> in(r.inner, r.inner + r.ni), c(r.calls, r.calls + r.nc); if (r.kind == 1) L.ev(J("inst").n("a", r.a)); else if (r.kind == 2) L.ev(J("sig").n("s", r.s).nums("inner", in).n("over", r.over).nums("calls", c).n("top", r.top)); else L.ev(J("wait").n("s", r.s).nums("calls", c).b("woke", r.woke)); }
	L.ev(J("end").n("code", WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st))); L.end(); }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out, 120); sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) return 2;
	std::vector<std::vector<int> > sc = loadScript(a.script); static const int sg[] = { SIGINT, SIGQUIT, SIGABRT, SIGTERM };
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { std::vector<Item> v; bool two = R.chance(1, 2); for (size_t j = 0; j < sc[i].size(); j++) { int o = sc[i][j]; if (o < 0) { v.push_back(Item(1, -o)); v.back().b = two; } else if (o > 200) { v.back().over = o - 200; v.back().b = two; } else if (o > 100) v.back().inner.push_back(o - 100); else { v.push_back(Item(2, o)); v.back().kill = R.chance(1, 3); } } session(L, v); }
	for (int n = 0; n < 40 * a.effort; n++) { std::vector<Item> v; v.push_back(Item(1, 1 + R.below(3))); v.back().b = R.chance(1, 2); int k = R.range(1, 9); while (k--) { int o = R.below(6); if (o == 0) { v.push_back(Item(1, 1 + R.below(3))); v.back().b = R.chance(1, 2); } else if (o == 1) v.push_back(Item(3, sg[R.below(4)])); else { v.push_back(Item(2, sg[R.below(4)])); v.back().kill = R.chance(1, 3); int m = R.below(5); while (m--) v.back().inner.push_back(sg[R.below(4)]); if (R.chance(1, 3)) { v.back().over = 1 + R.below(3); v.back().b = R.chance(1, 2); } } } session(L, v); }
	return 0; }
