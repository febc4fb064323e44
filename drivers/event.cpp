// P26: cybozu::Event under every schedule of small programs
#define SCHED_MAIN
#include "sched.hpp"
#include <cybozu/event.hpp>
using namespace verif;
struct Job { cybozu::Event *ev; Log *L; std::vector<int> ops; int id; };
static void *body(void *p) { Job *j = (Job*)p; for (size_t i = 0; i < j->ops.size(); i++) { sched::point(); const char *f = j->ops[i] == 1 ? "w" : "s"; j->L->ev(J("call").n("t", j->id + 1).str("f", f)); j->L->about(f); if (j->ops[i] == 1) j->ev->wait(); else j->ev->wakeup(); j->L->ev(J("ret").n("t", j->id + 1).str("f", f)); } return 0; }
static std::set<std::string> seen;
bool once(Log& L, const std::vector<std::vector<int> >& prog, sched::Choices& ch, int pre, int spur) {
	L.start(J().n("n", prog.size()).end()); cybozu::Event *ev = new cybozu::Event; sched::watchObj(0, ev, sizeof(*ev)); sched::Sys s(ch, L, pre, spur); std::vector<Job> job(prog.size());
	for (size_t i = 0; i < prog.size(); i++) { job[i].ev = ev; job[i].L = &L; job[i].ops = prog[i]; job[i].id = (int)i; s.spawn(body, &job[i], true); }
	bool ok = s.run(); L.ev(J(ok ? "over" : "stuck")); if (!s.misuse.empty()) L.ev(J("misuse").str("what", s.misuse)); if (ok) delete ev; ch.trim(); return L.endOnce(seen);
}
void explore(Log& L, const std::vector<std::vector<int> >& prog, int limit, int pre, int spur) { sched::Choices ch; for (int i = 0; i < limit; i++) { once(L, prog, ch, pre, spur); if (!ch.advance()) break; } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); Log L(a.out); std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { std::vector<std::vector<int> > prog; size_t p = 1; for (int t = 0; t < sc[i][0]; t++) { int n = sc[i][p++]; prog.push_back(std::vector<int>(sc[i].begin() + p, sc[i].begin() + p + n)); p += n; if (n == 0) prog.pop_back(); } if (prog.empty()) continue;
		explore(L, prog, 60 * a.effort, 2, 0); explore(L, prog, 30 * a.effort, 1, 1); for (int k = 0; k < 30 * a.effort; k++) { sched::Choices ch; ch.rng = &r; once(L, prog, ch, 100, r.below(3)); } }
	for (int i = 0; i < 150 * a.effort; i++) { std::vector<std::vector<int> > prog(2 + r.below(4)); for (size_t t = 0; t < prog.size(); t++) { int n = 1 + r.below(4); while (n--) prog[t].push_back(1 + r.below(2)); } for (int k = 0; k < 4; k++) { sched::Choices ch; ch.rng = &r; once(L, prog, ch, 100, r.below(3)); } }
	return 0;
}
