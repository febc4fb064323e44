// P38: child processes and the environment. The children are this program itself (VERIF_CHILD set):
// they tell what they were given, wait and end as they are told.
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <sys/wait.h>
#include <cybozu/process.hpp>
#include <cybozu/env.hpp>
#include "verif.hpp"
using namespace verif; typedef std::string S; typedef std::vector<S> SV;
static Rng *gR;
#define R (*gR)
const int NV = 2; static const char *vars[] = { "VERIF_A", "VERIF_B" }; extern char **environ;
// the system, with refusals: one call of a kind fails, or reading is interrupted
static bool failPipe, failFork, intr, hard;
extern "C" int pipe(int fd[2]) noexcept { typedef int (*F)(int*); static F f = (F)dlsym(RTLD_NEXT, "pipe"); if (failPipe) { hard = true; errno = EMFILE; return -1; } return f(fd); }
extern "C" pid_t fork() noexcept { typedef pid_t (*F)(); static F f = (F)dlsym(RTLD_NEXT, "fork"); if (failFork) { hard = true; errno = EAGAIN; return -1; } return f(); }
extern "C" ssize_t read(int fd, void *b, size_t n) { typedef ssize_t (*F)(int, void*, size_t); static F f = (F)dlsym(RTLD_NEXT, "read"); if (intr) { intr = false; errno = EINTR; return -1; } return f(fd, b, n); }
static void put(FILE *f, const S& s) { uint32_t n = (uint32_t)s.size(); fwrite(&n, 4, 1, f); fwrite(s.data(), 1, n, f); }
static S id(int fd) { struct stat st; char b[128]; if (fstat(fd, &st)) return "closed"; if (S_ISCHR(st.st_mode) && st.st_rdev == makedev(1, 3)) return "null"; snprintf(b, sizeof(b), "%llu.%llu.%o", (unsigned long long)st.st_dev, (unsigned long long)st.st_ino, st.st_mode & S_IFMT); return b; }
int child(int argc, char **argv, const S& base) {
	ownSignals(); prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(60); SV fds; for (int i = 3; i < 256; i++) if (fcntl(i, F_GETFD) != -1) { char b[16]; snprintf(b, sizeof(b), "%d", i); fds.push_back(b); }
	S std[3]; for (int i = 0; i < 3; i++) std[i] = id(i); // before anything is opened
	FILE *f = fopen((base + ".rep").c_str(), "wb"); if (!f) _exit(99); char b[32]; snprintf(b, sizeof(b), "%d", (int)getpid()); put(f, b); snprintf(b, sizeof(b), "%d", argc); put(f, b); for (int i = 0; i < argc; i++) put(f, argv[i]); put(f, jlist(fds)); for (int i = 0; i < 3; i++) put(f, std[i]);
	for (int i = 0; i < NV; i++) { const char *p = getenv(vars[i]); put(f, p ? S("=") + p : S()); } fclose(f);
	int g = open((base + ".go").c_str(), O_RDONLY); if (g < 0) _exit(98); short code = 97; if (::read(g, &code, 2) != 2) _exit(97); if (code < 0) { kill(getpid(), -code); pause(); } _exit(code);
}
struct In { S d; size_t p; In() : p(0) {} S get() { if (p + 4 > d.size()) return "?"; uint32_t n; memcpy(&n, d.data() + p, 4); p += 4; if (n > d.size() - p) return "?"; S r = d.substr(p, n); p += n; return r; } };
static int opened() { int n = 0; for (int i = 0; i < 120; i++) n += fcntl(i, F_GETFD) != -1; return n; }
struct Ch { pid_t pid; bool run, reaped; S base; };
static S self; static int serial; static int keep0[3];
struct Se { Log& L; cybozu::Process *p[3]; std::vector<Ch> c; int np, held[3];
	Se(Log& L_, int n) : L(L_), np(n) { L.start(J().n("np", n).n("nv", NV).end()); for (int i = 0; i < n; i++) { p[i] = new cybozu::Process; held[i] = 0; } for (int i = 0; i < NV; i++) unsetenv(vars[i]); }
	S text() { S s; size_t n = R.chance(1, 4) ? 0 : R.chance(1, 10) ? R.below(5000) : R.below(8); for (size_t i = 0; i < n; i++) { static const char q[] = "ab -=\"'\\\n\t$*;`\x80\xff"; s += q[R.below(sizeof(q) - 1)]; } return s; }
	// kind: 0 good, others cannot be started
	void run(int i, int kind) { static const char *bad[] = { "", "./none", "./plain", ".", "./text", "", "./none/x" }; static const char *good[] = { "./prog", "./pro g", 0, "../x/prog" };
		S exe = kind ? bad[kind - 1] : ""; if (!kind) { int k = R.below(4); exe = good[k] && k != 3 ? good[k] : k == 3 ? "./sub/../prog" : self; }
		SV args; bool list = R.chance(1, 4); int n = R.chance(1, 8) ? (list ? 9 : 40) : R.below(6); for (int k = 0; k < n; k++) args.push_back(text()); bool null = list ? false : R.chance(1, 2), toobig = !list && R.chance(1, 40); if (toobig) args.push_back(S(140000, 'y'));
		failPipe = R.chance(1, 40); failFork = !failPipe && R.chance(1, 40); hard = false; int shut = R.chance(1, 6) ? R.below(3) : 3; char b[64]; snprintf(b, sizeof(b), "./c%d", ++serial); S base = b; setenv("VERIF_CHILD", b, 1); mkfifo((base + ".rep").c_str(), 0600); mkfifo((base + ".go").c_str(), 0600);
		printf("unwritten %d\n", serial); // stays in the buffer of this process
		int extra[6], ne = R.below(7); for (int k = 0; k < ne; k++) { extra[k] = open("/dev/null", O_RDONLY); if (R.chance(1, 3)) { int hi = fcntl(extra[k], F_DUPFD, 3 + R.below(100)); if (hi >= 0) { close(extra[k]); extra[k] = hi; } } }
		if (shut < 3) close(shut); int open0 = opened(); L.about("run"); intr = R.chance(1, 4); bool ok; S a[9]; for (size_t k = 0; k < 9 && list && k < args.size(); k++) a[k] = args[k];
		if (list) switch (args.size()) { case 0: ok = p[i]->run(exe, S()); break; case 1: ok = p[i]->run(exe, a[0]); break; case 2: ok = p[i]->run(exe, a[0], a[1]); break; case 3: ok = p[i]->run(exe, a[0], a[1], a[2]); break; default: ok = p[i]->run(exe, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); }
		else if (null && R.chance(1, 2)) ok = p[i]->run(exe, args); else ok = p[i]->run(exe, args, null);
		int leak = opened() - open0; intr = false; failPipe = failFork = false; unsetenv("VERIF_CHILD"); if (shut < 3) { dup2(keep0[shut], shut); } for (int k = 0; k < ne; k++) close(extra[k]);
		J e("run"); e.n("p", i + 1).bytes("exe", exe).str("kind", kind ? "bad" : toobig ? "toobig" : "good").b("hard", hard).str("via", list ? "list" : "vec").raw("args", jbytesList(toobig ? SV() : args)).b("null", null).n("shut", shut).b("ok", ok).n("leak", leak); held[i] = 0;
		if (ok) { In in; L.about("the child does not come to life"); int fd = open((base + ".rep").c_str(), O_RDONLY); char buf[4096]; ssize_t r; while ((r = ::read(fd, buf, sizeof(buf))) > 0) in.d.append(buf, r); close(fd); Ch h; h.pid = atoi(in.get().c_str()); h.run = true; h.reaped = false; h.base = base; int ac = atoi(in.get().c_str()); SV av; for (int k = 0; k < ac; k++) av.push_back(in.get()); e.raw("argv", jbytesList(av)); e.raw("fds", in.get()); SV st; for (int k = 0; k < 3; k++) { S x = in.get(); st.push_back("\"" + (x == "null" || x == "closed" ? x : x == id(k) ? S("same") : S("other")) + "\""); } e.raw("std", jlist(st)); SV ev; for (int k = 0; k < NV; k++) { S x = in.get(); ev.push_back(x.empty() ? S("[]") : "[" + jbytes(x.substr(1)) + "]"); } e.raw("envs", jlist(ev)); c.push_back(h); held[i] = (int)c.size(); }
		else { unlink((base + ".rep").c_str()); unlink((base + ".go").c_str()); }
		L.ev(e); }
	void ends(int k, int code) { Ch& h = c[k]; if (!h.run) return; int fd = open((h.base + ".go").c_str(), O_WRONLY); static const int sg[] = { SIGKILL, SIGTERM, SIGINT }; short x = code < 0 ? -sg[R.below(3)] : code; if (::write(fd, &x, 2) != 2) abort(); close(fd); siginfo_t si; while (waitid(P_PID, h.pid, &si, WEXITED | WNOWAIT) && errno == EINTR) {} h.run = false; unlink((h.base + ".go").c_str()); unlink((h.base + ".rep").c_str()); L.ev(J("ends").n("k", k + 1).n("code", code)); }
	void alive(int i) { L.about("isAlive"); int code = R.below(300) - 5; bool r; if (R.chance(1, 4)) { r = p[i]->isAlive(); L.ev(J("alive0").n("p", i + 1).b("r", r)); } else { r = p[i]->isAlive(&code); L.ev(J("alive").n("p", i + 1).b("r", r).n("code", code)); } }
	void move(int i, int j) { if (held[j] && i != j) return; L.about("copy"); if (i == j) { cybozu::Process& q = *p[i]; *p[i] = q; } else if (R.chance(1, 2)) { *p[j] = *p[i]; } else { delete p[j]; p[j] = new cybozu::Process(*p[i]); } if (i != j) { held[j] = held[i]; held[i] = 0; } L.ev(J("move").n("p", i + 1).n("q", j + 1)); }
	void valid(int i) { L.ev(J("valid").n("p", i + 1).b("r", p[i]->isValid())); }
	void env() { int v = R.below(NV); S x = text(), o; for (size_t i = 0; i < x.size(); i++) if (!x[i]) x[i] = 'z'; L.about("env"); switch (R.below(6)) { case 0: case 1: setenv(vars[v], x.c_str(), 1); L.ev(J("setenv").n("v", v + 1).bytes("x", x)); break; case 2: unsetenv(vars[v]); L.ev(J("unsetenv").n("v", v + 1)); break;
		case 3: { o = x; bool r = cybozu::QueryEnv(o, vars[v]); L.ev(J("query").n("v", v + 1).b("r", r).bytes("before", x).bytes("x", o)); } break; case 4: { bool th = false; try { o = cybozu::GetEnv(vars[v]); } catch (std::exception&) { th = true; } L.ev(J("get").n("v", v + 1).b("thrown", th).bytes("x", o)); } break; default: o = cybozu::GetEnv(vars[v], x); L.ev(J("getdef").n("v", v + 1).bytes("dflt", x).bytes("x", o)); } }
	~Se() { for (size_t k = 0; k < c.size(); k++) ends((int)k, R.below(256)); for (int i = 0; i < np; i++) { valid(i); alive(i); delete p[i]; } for (size_t k = 0; k < c.size(); k++) waitpid(c[k].pid, 0, 0);
		int n = 0; for (;;) { int st; pid_t r = waitpid(-1, &st, WNOHANG); if (r < 0) break; n++; if (r == 0) usleep(20000); if (n > 40) break; }
		L.about("what is left"); fflush(stdout); S o; FILE *f = fopen("out1", "rb"); char b[4096]; size_t k; while ((k = fread(b, 1, sizeof(b), f)) > 0) o.append(b, k); fclose(f); std::vector<S> seen; bool twice = false; for (size_t q = 0; q < o.size();) { size_t z = o.find('\n', q); S l = o.substr(q, z - q); for (size_t m = 0; m < seen.size(); m++) if (seen[m] == l) twice = true; seen.push_back(l); q = z + 1; }
		if (ftruncate(1, 0)) abort(); lseek(1, 0, SEEK_SET); L.ev(J("left").n("n", n).b("twice", twice)); L.end(); }
};
int main(int argc, char **argv) {
	const char *ch = getenv("VERIF_CHILD"); if (ch) return child(argc, argv, ch);
	Args a(argc, argv); Rng r(a.seed); gR = &r; std::vector<std::vector<int> > sc = loadScript(a.script); Log L(a.out, 40);
	struct rlimit rl = { 120, 120 }; setrlimit(RLIMIT_NOFILE, &rl); char buf[4096]; ssize_t n = readlink("/proc/self/exe", buf, sizeof(buf) - 1); if (n < 0) abort(); self.assign(buf, n);
	char dir[] = "pr.XXXXXX"; if (!mkdtemp(dir) || chdir(dir)) abort(); if (symlink(self.c_str(), "prog") || symlink(self.c_str(), "pro g")) abort(); mkdir("sub", 0700); { FILE *f = fopen("plain", "w"); fputs("#!/bin/sh\n", f); fclose(f); f = fopen("text", "w"); fputs("no program\n", f); fclose(f); chmod("plain", 0600); chmod("text", 0700); }
	for (int i = 0; i < 3; i++) { static const char *nm[] = { "in0", "out1", "err2" }; int fd = open(nm[i], O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, i); keep0[i] = fcntl(fd, F_DUPFD, 60); close(fd); }
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i) && (a.effort > 1 || R.chance(1, 4))) { Se s(L, 2); for (size_t j = 0; j + 2 < sc[i].size(); j += 3) { int o = sc[i][j], x = sc[i][j + 1], y = sc[i][j + 2]; switch (o) { case 1: s.run(x - 1, 0); break; case 2: s.run(x - 1, 1 + R.below(7)); break; case 3: if (x <= (int)s.c.size()) s.ends(x - 1, y); break; case 4: s.alive(x - 1); break; default: s.move(x - 1, y - 1); } } }
	for (int i = 0; i < 80 * a.effort; i++) { Se s(L, 3); int m = 4 + R.below(16); while (m--) switch (R.below(12)) { case 0: case 1: s.run(R.below(3), 0); break; case 2: case 3: s.run(R.below(3), 1 + R.below(7)); break; case 4: case 5: if (!s.c.empty()) s.ends(R.below(s.c.size()), R.chance(1, 4) ? -1 : R.chance(1, 3) ? 0 : R.below(256)); break; case 6: case 7: s.alive(R.below(3)); break; case 8: s.move(R.below(3), R.below(3)); break; case 9: s.valid(R.below(3)); break; default: s.env(); } }
	return 0;
}
