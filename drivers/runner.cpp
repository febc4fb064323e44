// P37: the unit test runner, each run in a process of its own
#define CYBOZU_TEST_DISABLE_AUTO_RUN
#include <math.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/wait.h>
#include <cybozu/test.hpp>
#include <cybozu/exception.hpp>
#include "verif.hpp"
using namespace verif; typedef std::string S;
static Rng *gR;
#define R (*gR)
struct Sh { int nran, ran[64], inits, terms, early, fixed, fixdone; }; static Sh *sh;
struct Act { int k, n, d; }; static std::vector<std::vector<Act> > mods; static int total; static bool fixThrow[64]; static int fixMode, termMode;
static const char *names[] = { "assert1", "eqint1", "equ1", "eqs1", "eqstr1", "eqf1", "eqd1", "near1", "nearneg1", "ptr1", "ptrnull1", "exc1", "excbase1", "msg1", "noexc1", "eqchar1", "eqmix1",
	"assert0", "eqint0", "equ0", "eqs0", "eqstr0", "eqf0", "eqd0", "near0", "nearedge0", "nearnan0", "nearneg0", "ptr0", "fail", "excnone0", "excother0", "excint0", "msgnone0", "msgtext0", "msgother0", "noexc0", "noexcint0", "eqchar0", "eqmix0", "throw", "throwint", "throwarg", "throwempty", "throwcmp", "arr" };
enum { NK = sizeof(names) / sizeof(names[0]), NPASS = 17, NFAIL = 40 };
static int boom() { throw std::runtime_error("boom"); } struct Cmp { bool operator==(const Cmp&) const { throw std::logic_error("cmp"); } }; std::ostream& operator<<(std::ostream& os, const Cmp&) { return os; }
static void thr(int k) { if (k == 1) throw cybozu::Exception("alpha") << "beta" << 7; if (k == 2) throw std::runtime_error("alpha"); if (k == 3) throw 5; }
void act(const Act& a) { int x = a.n, y = a.n + 1; char b1[8] = "abc", b2[8] = "abc", b3[8] = "abd"; S s = "text"; const char *nm = names[a.k]; int *np = 0;
#define IS(N) if (!strcmp(nm, N))
	IS("assert1") CYBOZU_TEST_ASSERT(x < y); IS("eqint1") CYBOZU_TEST_EQUAL(x, a.n) IS("equ1") { size_t u = x; if (a.n & 1) CYBOZU_TEST_EQUAL(u, x) else CYBOZU_TEST_EQUAL(x, u) }
	IS("eqs1") { const char *p = "abc", *q = b2; switch (a.n % 4) { case 0: CYBOZU_TEST_EQUAL(p, b1) break; case 1: CYBOZU_TEST_EQUAL(b1, b2) break; case 2: CYBOZU_TEST_EQUAL(p, q) break; default: CYBOZU_TEST_EQUAL(b1, p) } } IS("eqstr1") { if (a.n & 1) CYBOZU_TEST_EQUAL(s, "text") else CYBOZU_TEST_EQUAL(s, S("text")) }
	IS("eqf1") { float f = x * 0.25f, g = x / 4.0f; CYBOZU_TEST_EQUAL(f, g) } IS("eqd1") { double f = x * 0.5, g = x / 2.0; CYBOZU_TEST_EQUAL(f, g) } IS("near1") { double f = x; CYBOZU_TEST_NEAR(f, f + 0.25, 0.5) } IS("nearneg1") { double f = -x; CYBOZU_TEST_NEAR(f, f - 0.25, 0.5) }
	IS("ptr1") CYBOZU_TEST_EQUAL_POINTER(&x, &x) IS("ptrnull1") CYBOZU_TEST_EQUAL_POINTER(np, (int*)0)
	IS("exc1") CYBOZU_TEST_EXCEPTION(thr(1), cybozu::Exception) IS("excbase1") CYBOZU_TEST_EXCEPTION(thr(1 + a.n % 2), std::exception) IS("msg1") { if (a.n & 1) CYBOZU_TEST_EXCEPTION_MESSAGE(thr(1), cybozu::Exception, "alpha:beta") else CYBOZU_TEST_EXCEPTION_MESSAGE(thr(1), std::exception, "beta") }
	IS("noexc1") CYBOZU_TEST_NO_EXCEPTION(thr(0)) IS("eqchar1") { char c = 'q'; CYBOZU_TEST_EQUAL(c, 'q') } IS("eqmix1") { short h = 5; long l = 5; CYBOZU_TEST_EQUAL(h, l) }
	IS("assert0") CYBOZU_TEST_ASSERT(x > y); IS("eqint0") CYBOZU_TEST_EQUAL(x, y) IS("equ0") { size_t u = x; CYBOZU_TEST_EQUAL(u, y) } IS("eqs0") { const char *p = "abc", *q = b3; switch (a.n % 4) { case 0: CYBOZU_TEST_EQUAL(p, b3) break; case 1: CYBOZU_TEST_EQUAL(b1, b3) break; case 2: CYBOZU_TEST_EQUAL(p, q) break; default: CYBOZU_TEST_EQUAL(b3, p) } } IS("eqstr0") CYBOZU_TEST_EQUAL(s, "texts")
	IS("eqf0") { float f = (float)x, g = f + 0.5f; CYBOZU_TEST_EQUAL(f, g) } IS("eqd0") { double f = x, g = f + 0.5; CYBOZU_TEST_EQUAL(f, g) } IS("near0") { double f = x; CYBOZU_TEST_NEAR(f, f + 0.75, 0.5) } IS("nearedge0") { double f = x; CYBOZU_TEST_NEAR(f, f + 0.5, 0.5) } IS("nearnan0") { double f = x; CYBOZU_TEST_NEAR(f, (double)NAN, 0.5) } IS("nearneg0") { double f = -x; CYBOZU_TEST_NEAR(f, f - 0.75, 0.5) }
	IS("ptr0") CYBOZU_TEST_EQUAL_POINTER(&x, &y) IS("fail") CYBOZU_TEST_FAIL("no"); IS("excnone0") CYBOZU_TEST_EXCEPTION(thr(0), std::exception) IS("excother0") CYBOZU_TEST_EXCEPTION(thr(2), cybozu::Exception) IS("excint0") CYBOZU_TEST_EXCEPTION(thr(3), std::exception)
	IS("msgnone0") CYBOZU_TEST_EXCEPTION_MESSAGE(thr(0), std::exception, "alpha") IS("msgtext0") CYBOZU_TEST_EXCEPTION_MESSAGE(thr(1), std::exception, "gamma") IS("msgother0") { if (a.n & 1) CYBOZU_TEST_EXCEPTION_MESSAGE(thr(2), cybozu::Exception, "alpha") else CYBOZU_TEST_EXCEPTION_MESSAGE(thr(3), std::exception, "alpha") } IS("noexc0") CYBOZU_TEST_NO_EXCEPTION(thr(1)) IS("noexcint0") CYBOZU_TEST_NO_EXCEPTION(thr(3))
	IS("eqchar0") { char c = 'q'; CYBOZU_TEST_EQUAL(c, 'r') } IS("eqmix0") { short h = 5; long l = 6; CYBOZU_TEST_EQUAL(h, l) }
	IS("throw") throw cybozu::Exception("stop"); IS("throwint") throw 3; IS("throwarg") CYBOZU_TEST_EQUAL(boom(), 3) IS("throwempty") throw std::runtime_error(""); IS("throwcmp") { Cmp c; CYBOZU_TEST_EQUAL(c, c) }
	IS("arr") { std::vector<int> v(a.n + 1), w; for (int i = 0; i < a.n; i++) v[i] = i; w = v; for (int i = 0; i < a.d; i++) w[(i * 7) % a.n] = -1 - i; CYBOZU_TEST_EQUAL_ARRAY(v, w, a.n) } }
void body(int i) { sh->ran[sh->nran++ % 64] = i + 1; for (size_t j = 0; j < mods[i].size(); j++) act(mods[i][j]); }
struct Fx { Fx() { if (fixMode) sh->fixed++; } ~Fx() { if (fixMode) sh->fixdone++; } };
struct Top { Top() { sh->inits++; } ~Top() { sh->terms++; if (sh->nran < total) sh->early = 1; } };
CYBOZU_TEST_SETUP_FIXTURE(Top)
CYBOZU_TEST_AUTO(m0) { body(0); }
CYBOZU_TEST_AUTO_WITH_FIXTURE(m1, Fx) { body(1); }
CYBOZU_TEST_AUTO(m2) { body(2); }
CYBOZU_TEST_AUTO_WITH_FIXTURE(m3, Fx) { body(3); }
template<int N> void dyn() { body(N); }
static void (*dyns[])() = { dyn<4>, dyn<5>, dyn<6>, dyn<7>, dyn<8>, dyn<9> };
void iok() { sh->inits++; } void ithrow() { sh->inits++; throw std::runtime_error("init"); } void ithrowi() { sh->inits++; throw 1; } void tok() { sh->terms++; if (sh->nran < total) sh->early = 1; } void tthrow() { tok(); throw std::runtime_error(""); } void tthrowi() { tok(); throw 2; }
int numAfter(const S& o, const char *k) { size_t p = o.find(k); return p == S::npos ? -1 : atoi(o.c_str() + p + strlen(k)); }
int occ(const S& o, const char *k) { int n = 0; for (size_t p = 0; (p = o.find(k, p)) != S::npos; p += strlen(k)) n++; return n; }
void run(Log& L) { total = (int)mods.size(); memset(sh, 0, sizeof(*sh)); fixMode = 1; int how = R.below(8); const char *init = "no", *term = "no"; char fn[64]; snprintf(fn, sizeof(fn), "out.%d", (int)getpid()); static const char *prog[] = { "foo_test", "./bin/foo_test", "/a/b.c/foo_test.exe", "foo_test.a.exe" }; const char *pn = prog[R.below(4)]; L.about("run"); fflush(0);
	void (*fi)() = 0, (*ft)() = 0; switch (how) { case 0: init = term = "ok"; break; case 1: break; case 2: fi = iok; init = "ok"; break; case 3: ft = tok; term = "ok"; break; case 4: fi = R.chance(1, 2) ? ithrow : ithrowi; ft = tok; init = "throw"; term = "ok"; break; case 5: fi = iok; ft = R.chance(1, 2) ? tthrow : tthrowi; init = "ok"; term = "throw"; break; default: fi = iok; ft = tok; init = term = "ok"; }
	pid_t pid = fork(); if (pid == 0) { int fd = open(fn, O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); close(fd); if (how != 0) cybozu::test::autoRun.setup(fi, ft); static char nmb[6][8]; for (int i = 4; i < total; i++) { snprintf(nmb[i - 4], 8, "m%d", i); cybozu::test::autoRun.append(nmb[i - 4], dyns[i - 4]); } char *av[] = { (char*)pn, 0 }; int r = cybozu::test::autoRun.run(1, av); std::cout.flush(); fflush(0); _exit(r); }
	int st = 0; waitpid(pid, &st, 0); S o; { int fd = open(fn, O_RDONLY); char b[4096]; ssize_t k; while ((k = ::read(fd, b, sizeof(b))) > 0) o.append(b, k); close(fd); unlink(fn); }
	std::vector<S> ms; for (size_t i = 0; i < mods.size(); i++) { std::vector<S> as; for (size_t j = 0; j < mods[i].size(); j++) { Act& a = mods[i][j]; S t = S("[\"") + names[a.k] + "\""; if (!strcmp(names[a.k], "arr")) t += "," + J::num(a.n) + "," + J::num(a.d); as.push_back(t + "]"); } ms.push_back(jlist(as)); }
	std::vector<int> ran(sh->ran, sh->ran + (sh->nran < 64 ? sh->nran : 64)), ann; for (size_t p = 0; (p = o.find("ctest:module=m", p)) != S::npos; p += 14) if (p == 0 || o[p - 1] == '\n') ann.push_back(atoi(o.c_str() + p + 14) + 1);
	size_t sp = o.find("ctest:name="); S sl = sp == S::npos ? S() : o.substr(sp, o.find('\n', sp) - sp), name = sl.empty() ? S() : sl.substr(11, sl.find(',') - 11); J su; su.b("there", !sl.empty()).n("module", numAfter(sl, "module=")).n("total", numAfter(sl, "total=")).n("ok", numAfter(sl, "ok=")).n("ng", numAfter(sl, "ng=")).n("exception", numAfter(sl, "exception=")).str("name", name);
	int fw = 0; if (strcmp(init, "throw")) fw = 2;
	L.ev(J("run").raw("mods", jlist(ms)).str("init", init).str("term", term).nums("ran", ran).nums("announced", ann).n("inits", sh->inits).n("terms", sh->terms).b("early", sh->early).raw("sum", su.end()).str("name", "foo_test").n("exit", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + st).n("reports", occ(o, ":ctest:CYBOZU_TEST_")).n("stopped", occ(o, " is stopped by ")).n("whynone", occ(o, "ctest:  no exception\n")).n("whytext", occ(o, "ctest:  bad exception msg:")).n("whyother", occ(o, "ctest:  unexpected exception\n")).n("fixed", sh->fixed).n("fixdone", sh->fixdone).n("fixwant", fw)); }
Act mk(int k) { Act a; a.k = k; a.n = R.below(9); a.d = 0; if (!strcmp(names[k], "arr")) { a.n = R.below(7); a.d = a.n && R.chance(1, 2) ? R.below(a.n < 6 ? a.n + 1 : 6) : 0; if (a.n % 7 == 0) a.d = 0; } return a; }
int find(const char *n) { for (int i = 0; i < NK; i++) if (!strcmp(names[i], n)) return i; abort(); }
int main(int argc, char **argv) {
	sh = (Sh*)mmap(0, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out, 60); std::vector<std::vector<int> > sc = loadScript(a.script); static const char *kn[] = { "", "assert1", "fail", "throw", "throwint", "arr" };
	L.start(); // every kind of assertion alone
	for (int k = 0; k < NK; k++) if (a.mine(k)) for (int pos = 0; pos < 6; pos++) { mods.assign(4 + (pos > 3 ? pos - 3 : 0), std::vector<Act>()); Act k1 = mk(k); if (strcmp(names[k], "arr")) k1.n = pos; mods[pos].push_back(k1); run(L); } L.end();
	L.start(); for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { mods.assign(6, std::vector<Act>()); int m = R.below(5), m2 = m + 1; for (size_t j = 0; j < sc[i].size(); j++) { if (sc[i][j] == 0) { m = m2; continue; } Act x = mk(find(kn[sc[i][j]])); if (sc[i][j] == 5) { x.n = 3; x.d = 1; } mods[m].push_back(x); } run(L); } L.end();
	for (int i = 0; i < 10 * a.effort; i++) { L.start(); for (int n = 0; n < 10; n++) { mods.assign(4 + R.below(7), std::vector<Act>()); int kind = R.below(4); for (size_t m = 0; m < mods.size(); m++) { int c = R.below(6); if (kind == 0 && R.chance(1, 10)) c = 300; for (int j = 0; j < c; j++) mods[m].push_back(mk(kind == 0 ? R.below(NPASS) : kind == 1 ? (R.chance(1, 30) ? R.below(NK) : R.below(NPASS)) : kind == 2 ? R.below(NFAIL) : R.below(NK))); } run(L); } L.end(); }
	return 0;
}
