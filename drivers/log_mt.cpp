// P36: several threads log at once; every call on a stream is a scheduling point
#define SCHED_MAIN
#include "sched.hpp"
#include "diag.hpp"
#include <cybozu/log.hpp>
using namespace verif; typedef std::string S;
#define PT(f) if (fp_ == lf) sched::point();
static FILE *lf; template<class F> static F nx(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
int fprintf(FILE *fp_, const char *f, ...) { PT() va_list a; va_start(a, f); int r = vfprintf(fp_, f, a); va_end(a); PT() return r; }
int __fprintf_chk(FILE *fp_, int, const char *f, ...) { PT() va_list a; va_start(a, f); int r = vfprintf(fp_, f, a); va_end(a); PT() return r; }
int fputs(const char *s, FILE *fp_) { static int (*g)(const char*, FILE*) = nx<int (*)(const char*, FILE*)>("fputs"); PT() int r = g(s, fp_); PT() return r; }
int fputc(int c, FILE *fp_) { static int (*g)(int, FILE*) = nx<int (*)(int, FILE*)>("fputc"); PT() int r = g(c, fp_); PT() return r; }
size_t fwrite(const void *p, size_t s, size_t n, FILE *fp_) { static size_t (*g)(const void*, size_t, size_t, FILE*) = nx<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite"); PT() size_t r = g(p, s, n, fp_); PT() return r; }
int fflush(FILE *fp_) { static int (*g)(FILE*) = nx<int (*)(FILE*)>("fflush"); if (fp_) PT() return g(fp_); }
}
struct Job { int id, n; bool st; std::vector<S> *t; void go() { for (int i = 0; i < n; i++) { sched::point(); char b[64]; snprintf(b, sizeof(b), "t%d-%d-%s", id, i, id == 1 ? "xxxxxxxxxxxxxxxxxxxxxxxx" : "y"); if (st) { cybozu::Log l(cybozu::LogWarning); l << b; sched::point(); } else cybozu::PutLog(cybozu::LogInfo, "%s", b); } } static void *run(void *p) { ((Job*)p)->go(); return 0; } };
static std::set<S> seen;
void once(Log& L, int nt, int per, sched::Choices& ch, int pre, int kinds) { char fn[64]; snprintf(fn, sizeof(fn), "mt.%d", (int)getpid()); FILE *fp = fopen(fn, "wb"); cybozu::SetLogFILE(fp); lf = fp; diag::fake = true; diag::nowSec = 1700000123; diag::nowMs = 5; L.start(); bool ok; std::vector<Job> job(nt); { sched::Sys s(ch, L, pre, 0); for (int i = 0; i < nt; i++) { job[i].id = i; job[i].n = per; job[i].st = kinds >> i & 1; s.spawn(Job::run, &job[i], true); } ok = s.run(); } diag::fake = false; lf = 0; cybozu::SetLogFILE(0); fclose(fp);
	S c; { int fd = open(fn, O_RDONLY); char b[4096]; ssize_t k; while ((k = ::read(fd, b, sizeof(b))) > 0) c.append(b, k); close(fd); } unlink(fn); std::vector<S> lines, texts; size_t p = 0; while (p < c.size()) { size_t q = c.find('\n', p); if (q == S::npos) q = c.size(); lines.push_back(c.substr(p, q - p)); p = q + 1; } for (int i = 0; i < nt; i++) for (int k = 0; k < per; k++) { char b[64]; snprintf(b, sizeof(b), "t%d-%d-%s", i, k, i == 1 ? "xxxxxxxxxxxxxxxxxxxxxxxx" : "y"); texts.push_back(b); } if (!ok) lines.push_back("stuck");
	L.ev(J("threads").n("n", 1700000123 / 86400).n("s", 1700000123 % 86400).n("m", 5).raw("lines", jbytesList(lines)).raw("texts", jbytesList(texts))); ch.trim(); L.endOnce(seen); }
int main(int argc, char **argv) { Args a(argc, argv); Rng r(a.seed); Log L(a.out, 30); cybozu::SetLogFILE(0);
	for (int k = 0; k < 4; k++) { sched::Choices ch; for (int i = 0; i < 400 * a.effort; i++) { once(L, 2, 1, ch, 2, k); if (!ch.advance()) break; } }
	for (int i = 0; i < 200 * a.effort; i++) { sched::Choices c; c.rng = &r; once(L, 2 + r.below(2), 1 + r.below(2), c, 100, r.below(8)); } return 0; }
