// P28: atomic operations; every memory access of the cell is a scheduling point
#define SCHED_MAIN
#include "sched.hpp"
#include <cybozu/atomic.hpp>
using namespace verif;
template<class T> std::string lim(T v) { std::string s = "["; for (size_t i = 0; i < sizeof(T) / 2; i++) { char b[16]; snprintf(b, sizeof(b), "%s%u", i ? "," : "", (unsigned)(((unsigned long long)v >> (16 * i)) & 0xffff)); s += b; } return s + "]"; }
struct Op { int k; long long x, y; };
template<class T> struct Cell { T before[4], v, after[4]; };
template<class T> struct Job { Cell<T> *c; Log *L; std::vector<Op> ops; int id; T last;
	T op(const char *f, T x, T y) { L->ev(J("call").n("t", id).str("f", f).raw("x", lim(x)).raw("y", lim(y))); L->about(f); T r = f[0] == 'a' ? cybozu::AtomicAdd<T>(&c->v, x) : f[0] == 'x' ? cybozu::AtomicExchange<T>(&c->v, x) : cybozu::AtomicCompareExchange<T>(&c->v, x, y); cybozu::mfence(); L->ev(J("ret").n("t", id).raw("r", lim(r))); last = r; return r; }
	void go() { last = 0; for (size_t i = 0; i < ops.size(); i++) { sched::point(); T x = (T)ops[i].x, y = (T)ops[i].y; switch (ops[i].k) { case 1: op("add", x, 0); break; case 2: op("xchg", x, 0); break; case 3: op("cas", x, y); break; case 5: op("cas", x, last); break; default: { T o = 0; for (int n = 0; n < 20; n++) { T r = op("cas", (T)(o + 1), o); if (r == o) break; o = r; } } } } }
	static void *run(void *p) { ((Job*)p)->go(); return 0; } };
static std::set<std::string> seen;
template<class T> void once(Log& L, const std::vector<std::vector<Op> >& prog, T v0, sched::Choices& ch, int pre) {
	L.start(J().n("n", prog.size()).raw("v", lim(v0)).end()); Cell<T> c; for (int i = 0; i < 4; i++) c.before[i] = c.after[i] = (T)0x5a5a5a5a5a5a5a5aLL; c.v = v0; sched::watchObj(0, &c.v, sizeof(T)); sched::Sys s(ch, L, pre, 0); std::vector<Job<T> > job(prog.size()); for (size_t i = 0; i < prog.size(); i++) { job[i].c = &c; job[i].L = &L; job[i].ops = prog[i]; job[i].id = (int)i + 1; s.spawn(Job<T>::run, &job[i], true); }
	bool ok = s.run(); bool ar = true; for (int i = 0; i < 4; i++) if (c.before[i] != (T)0x5a5a5a5a5a5a5a5aLL || c.after[i] != (T)0x5a5a5a5a5a5a5a5aLL) ar = false; if (!ok) L.ev(J("stuck")); L.ev(J("final").raw("v", lim(c.v)).b("around", ar)); sched::unwatch(); ch.trim(); L.endOnce(seen);
}
template<class T> void explore(Log& L, Rng& r, const std::vector<std::vector<Op> >& prog, T v0, int dfs, int rnd) { sched::Choices ch; for (int i = 0; i < dfs; i++) { once<T>(L, prog, v0, ch, 3); if (!ch.advance()) break; } for (int i = 0; i < rnd; i++) { sched::Choices c; c.rng = &r; once<T>(L, prog, v0, c, 100); } }
template<class T> T val(Rng& r) { switch (r.below(5)) { case 0: return (T)r.below(4); case 1: return (T)-1; case 2: return (T)(T(1) << (sizeof(T) * 8 - 1)); case 3: return (T)((T)-1 - (T)r.below(3)); default: return (T)r.u64(); } }
template<class T> void random(Log& L, Rng& r) { std::vector<std::vector<Op> > prog(1 + r.below(3)); T v0 = val<T>(r); T pool[3] = { v0, val<T>(r), val<T>(r) }; for (size_t t = 0; t < prog.size(); t++) { int n = 1 + r.below(3); while (n--) { Op o; o.k = 1 + r.below(5); if (o.k == 4) o.k = 5; o.x = (long long)(r.chance(1, 2) ? pool[r.below(3)] : val<T>(r)); o.y = (long long)(r.chance(2, 3) ? pool[r.below(3)] : (T)(pool[0] ^ (T)((T)1 << r.below(sizeof(T) * 8)))); prog[t].push_back(o); } } explore<T>(L, r, prog, v0, 4, 4); }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); Log L(a.out); std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { std::vector<std::vector<Op> > prog; size_t p = 1; for (int t = 0; t < sc[i][0]; t++) { int n = sc[i][p++]; std::vector<Op> v; for (int k = 0; k < n; k++) { Op o; o.k = sc[i][p + k]; o.x = o.k == 1 ? 1 : 65536 * (t + 1); o.y = 0; v.push_back(o); } p += n; if (n) prog.push_back(v); } if (prog.empty()) continue;
		switch (i % 4) { case 0: explore<int>(L, r, prog, 0, 40 * a.effort, 5 * a.effort); break; case 1: explore<unsigned long long>(L, r, prog, 0, 40 * a.effort, 5 * a.effort); break; case 2: explore<unsigned int>(L, r, prog, 0, 40 * a.effort, 5 * a.effort); break; default: explore<long>(L, r, prog, 0, 40 * a.effort, 5 * a.effort); } }
	for (int i = 0; i < 40 * a.effort; i++) { random<int>(L, r); random<unsigned int>(L, r); random<long>(L, r); random<unsigned long long>(L, r); random<long long>(L, r); }
	return 0;
}
