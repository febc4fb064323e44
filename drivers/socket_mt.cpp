// P30: threads closing one socket and taking it over, every access to the sockets a scheduling point
#define SCHED_MAIN
#include "sched.hpp"
#define NETSIM_POINT simPoint
#include "netsim.hpp"
#include <cybozu/socket.hpp>
using namespace verif; typedef cybozu::Socket So;
extern "C" void simPoint(int) { sched::point(); }
static net::Net& N = net::it();
struct Job { So *src, *dst; int op;
	void go() { sched::point(); try { switch (op) { case 1: src->close(); break; case 2: src->close(true); break; case 3: dst->moveFrom(*src); break; case 4: *dst = std::move(*src); break; case 5: { So t(std::move(*src)); sched::point(); } break; default: { So t(std::move(*src)); sched::point(); dst->moveFrom(t); } } } catch (std::exception&) { N.bad += 100; } }
	static void *run(void *p) { ((Job*)p)->go(); return 0; } };
static std::set<std::string> seen;
void once(Log& L, const std::vector<int>& ops, bool held, sched::Choices& ch, int pre) {
	L.start(J().n("n", 1).end()); N.reset(100); N.armed = true; int n = (int)ops.size(); So *lis = new So, *src = new So; std::vector<So*> dst(n); lis->bind(5000, 1); int l = 100; src->connect("127.0.0.1", 5000); int fd = 101; for (int i = 0; i < n; i++) { dst[i] = new So; if (held) dst[i]->connect("127.0.0.1", 5000); }
	sched::watchObj(0, src, sizeof(So)); for (int i = 0; i < n; i++) sched::watchObj(i + 1, dst[i], sizeof(So));
	bool ok; { sched::Sys s(ch, L, pre, 0); std::vector<Job> job(n); for (int i = 0; i < n; i++) { job[i].src = src; job[i].dst = dst[i]; job[i].op = ops[i]; s.spawn(Job::run, &job[i], true); } ok = s.run(); } sched::unwatch();
	int closed = N.closes[fd], owners = 0, live = N.count(); if (src->isValid()) owners++; for (int i = 0; i < n; i++) if (dst[i]->isValid() && !(held && (ops[i] == 1 || ops[i] == 2 || ops[i] == 5))) owners += held ? 0 : 1; if (held) owners = N.f[fd].open; delete src; for (int i = 0; i < n; i++) delete dst[i]; delete lis; bool all = N.count() == 0; for (int i = 100; i < 110; i++) if (N.closes[i] > 1) all = false; (void)l; (void)live;
	L.ev(J("race").nums("ops", ops).n("owners", owners).n("closed", closed).n("total", all ? N.closes[fd] : 99).n("bad", N.bad + (ok ? 0 : 1000))); N.armed = false; ch.trim(); L.endOnce(seen);
}
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); Log L(a.out, 20);
	std::vector<std::vector<int> > pr; for (int x = 1; x <= 6; x++) for (int y = x; y <= 6; y++) { std::vector<int> v; v.push_back(x); v.push_back(y); pr.push_back(v); for (int z = y; z <= 6; z++) { std::vector<int> w(v); w.push_back(z); pr.push_back(w); } }
	for (size_t i = 0; i < pr.size(); i++) { sched::Choices ch; for (int n = 0; n < 150 * a.effort; n++) { once(L, pr[i], n % 2, ch, 2); if (n % 2 && !ch.advance()) break; } for (int n = 0; n < 10 * a.effort; n++) { sched::Choices c; c.rng = &r; once(L, pr[i], n % 2, c, 100); } }
	return 0;
}
