#pragma once
// time and syslog of the code under test are scripted
#include <sys/time.h>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <stdarg.h>
#include <stdio.h>
#include <syslog.h>
#include <string>
#include <vector>
namespace diag { struct Sysl { int p; std::string t; }; static std::vector<Sysl> sysl; static bool fake; static long long nowSec; static int nowMs;
static void rec(int p, const char *f, va_list a) { char b[65536]; vsnprintf(b, sizeof(b), f, a); Sysl s; s.p = p & 7; s.t = b; if (!s.t.empty() && s.t[s.t.size() - 1] == '\n') s.t.resize(s.t.size() - 1); sysl.push_back(s); } }
extern "C" {
int gettimeofday(struct timeval *tv, void *) throw() { if (diag::fake) { tv->tv_sec = diag::nowSec; tv->tv_usec = diag::nowMs * 1000 + 999; return 0; } return (int)syscall(SYS_gettimeofday, tv, 0); }
int clock_gettime(clockid_t c, struct timespec *ts) throw() { if (diag::fake && c == CLOCK_REALTIME) { ts->tv_sec = diag::nowSec; ts->tv_nsec = diag::nowMs * 1000000 + 999999; return 0; } return (int)syscall(SYS_clock_gettime, c, ts); }
time_t time(time_t *t) throw() { long long v; if (diag::fake) v = diag::nowSec; else { struct timeval tv; syscall(SYS_gettimeofday, &tv, 0); v = tv.tv_sec; } if (t) *t = (time_t)v; return (time_t)v; }
void syslog(int p, const char *f, ...) { va_list a; va_start(a, f); diag::rec(p, f, a); va_end(a); }
void __syslog_chk(int p, int, const char *f, ...) { va_list a; va_start(a, f); diag::rec(p, f, a); va_end(a); }
void vsyslog(int p, const char *f, va_list a) { diag::rec(p, f, a); }
void __vsyslog_chk(int p, int, const char *f, va_list a) { diag::rec(p, f, a); }
}
