#pragma once
#include "verif.hpp"
// A system with sockets: descriptors, connections, listeners; results of calls are scripted.
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <poll.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <string.h>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <algorithm>
namespace net {
struct Con { std::string buf[2]; bool fin[2], gone[2]; Con() { fin[0] = fin[1] = gone[0] = gone[1] = false; } };
struct Fd { bool open, nb; int kind, c, s, prog, soerr, port, want; std::deque<int> q; std::map<int, std::string> opt; Fd() : open(false), nb(false), kind(0), c(0), s(0), prog(0), soerr(0), port(0), want(0) {} };
struct Net { std::vector<Fd> f; std::vector<Con> con; int base, bad, lastCon, lastOpt, lastFd; std::string lastVal; bool armed, hard, intr; long waited; std::vector<int> q; size_t qi; int eph; std::vector<int> closes;
	Net() { reset(100); armed = false; }
	void reset(int b) { base = b; f.assign(2048, Fd()); con.clear(); bad = 0; lastFd = -1; lastCon = lastOpt = -1; hard = intr = false; waited = 0; qi = 0; q.clear(); eph = 30000; closes.assign(2048, 0); }
	int next() { return armed && qi < q.size() ? q[qi++] : 0; }
	bool mine(int fd) { return fd >= base && fd < 2048; }
	Fd *get(int fd) { if (!mine(fd) || !f[fd].open) { if (mine(fd)) bad++; hard = true; errno = EBADF; return 0; } return &f[fd]; }
	int fail(int e) { hard = true; errno = e; return -1; }
	int alloc() { for (int i = base; i < 2048; i++) if (!f[i].open) { f[i] = Fd(); f[i].open = true; return i; } return -1; }
	Fd *listener(int port) { for (size_t i = 0; i < f.size(); i++) if (f[i].open && f[i].kind == 2 && f[i].port == port) return &f[i]; return 0; }
	bool anyNb() { for (size_t i = 0; i < f.size(); i++) if (f[i].open && f[i].nb) return true; return false; }
	int count() { int n = 0; for (size_t i = 0; i < f.size(); i++) if (f[i].open) n++; return n; }
	void establish(Fd *d, Fd *l) { con.push_back(Con()); d->kind = 1; d->c = (int)con.size() - 1; d->s = 0; l->q.push_back(d->c); }
	bool readable(Fd *d) { return d->kind == 2 ? !d->q.empty() : d->kind == 1 ? !con[d->c].buf[d->s].empty() || con[d->c].fin[1 - d->s] : false; }
	bool writable(Fd *d) { if (d->prog == 1) { Fd *l = listener(d->want); if (l) establish(d, l); else d->soerr = ECONNREFUSED; d->prog = 0; return true; } if (d->prog == 2) { d->soerr = ECONNREFUSED; d->prog = 0; return true; } return d->kind == 1 && d->prog == 0; }
	int wait(Fd *d, bool wr, long ms) { int c = next(); if (c == 1) { intr = true; errno = EINTR; return -1; } if (c == 4) return fail(ENOMEM); if (wr ? writable(d) : readable(d)) return 1; if (wr) hard = true; waited += ms < 0 ? 1000000000 : ms; return 0; }
	void closed(int fd) { Fd& d = f[fd]; if (d.kind == 1) con[d.c].fin[d.s] = con[d.c].gone[d.s] = true; if (d.kind == 2) for (size_t i = 0; i < d.q.size(); i++) con[d.q[i]].fin[1] = con[d.q[i]].gone[1] = true; d = Fd(); }
	ssize_t rd(int fd, void *p, size_t n) { Fd *d = get(fd); if (!d) return -1; if (d->kind != 1) return fail(ENOTCONN); lastFd = fd; std::string& b = con[d->c].buf[d->s]; int c = next(); if (c == 1) { errno = EINTR; return -1; } if (c == 4) return fail(ECONNRESET); if (n == 0) return 0; if (b.empty()) { if (con[d->c].fin[1 - d->s]) return 0; return fail(EAGAIN); } if (c == 2) n = 1; if (c == 3) n = (n + 1) / 2; n = (std::min)(n, b.size()); memcpy(p, b.data(), n); b.erase(0, n); return n; }
	ssize_t wr(int fd, const void *p, size_t n) { Fd *d = get(fd); if (!d) return -1; if (d->kind != 1) return fail(ENOTCONN); lastFd = fd; Con& k = con[d->c]; int c = next(); if (c == 1) { errno = EINTR; return -1; } if (c == 4) return fail(ECONNRESET); if (k.fin[d->s] || k.gone[1 - d->s]) return fail(EPIPE); if (c == 2 && n > 1) n = 1; if (c == 3 && n > 1) n = (n + 1) / 2; k.buf[1 - d->s].append((const char*)p, n); return n; }
};
inline Net& it() { static Net *n = new Net; return *n; }
inline int portOf(const struct sockaddr *a) { return ntohs(a->sa_family == AF_INET ? ((const sockaddr_in*)a)->sin_port : ((const sockaddr_in6*)a)->sin6_port); }
} // net
extern "C" {
int socket(int, int, int) __THROW { net::Net& N = net::it(); if (N.next() == 4) return N.fail(EMFILE); return N.alloc(); }
int connect(int fd, const struct sockaddr *a, socklen_t) { net::Net& N = net::it(); net::Fd *d = N.get(fd); if (!d) return -1; if (d->kind) return N.fail(EISCONN); int c = N.next(), port = net::portOf(a); net::Fd *l = N.listener(port);
	if (!d->nb) { if (c == 1) { N.intr = true; errno = EINTR; return -1; } if (c == 4) return N.fail(ENETUNREACH); if (!l) { errno = ECONNREFUSED; return -1; } N.establish(d, l); return 0; }
	if (c == 4) return N.fail(ENETUNREACH); if (c == 2 && l) { N.establish(d, l); return 0; } d->want = port; d->prog = c == 3 ? 3 : l ? 1 : 2; errno = EINPROGRESS; return -1; }
int bind(int fd, const struct sockaddr *a, socklen_t) __THROW { net::Net& N = net::it(); net::Fd *d = N.get(fd); if (!d) return -1; if (N.next() == 4) return N.fail(EACCES); int p = net::portOf(a); if (N.listener(p)) return N.fail(EADDRINUSE); d->want = p; return 0; }
int listen(int fd, int) __THROW { net::Net& N = net::it(); net::Fd *d = N.get(fd); if (!d) return -1; if (N.next() == 4) return N.fail(EADDRINUSE); d->kind = 2; d->port = d->want; return 0; }
static int accept_(int fd, struct sockaddr *a, socklen_t *n) { net::Net& N = net::it(); net::Fd *d = N.get(fd); if (!d) return -1; if (d->kind != 2) return N.fail(EINVAL); int c = N.next(); if (c == 1) { N.intr = true; errno = EINTR; return -1; } if (c == 4) return N.fail(ECONNABORTED); if (d->q.empty()) return N.fail(EAGAIN); int con = d->q.front(); d->q.pop_front(); int k = N.alloc(); N.f[k].kind = 1; N.f[k].c = con; N.f[k].s = 1; N.lastCon = con;
	if (a && n) { if (con % 2) { sockaddr_in6 s; memset(&s, 0, sizeof(s)); s.sin6_family = AF_INET6; s.sin6_port = htons(40000 + con); s.sin6_addr.s6_addr[15] = 1; memcpy(a, &s, (std::min)((socklen_t)sizeof(s), *n)); *n = sizeof(s); } else { sockaddr_in s; memset(&s, 0, sizeof(s)); s.sin_family = AF_INET; s.sin_port = htons(40000 + con); s.sin_addr.s_addr = htonl(0x7f000001); memcpy(a, &s, (std::min)((socklen_t)sizeof(s), *n)); *n = sizeof(s); } } return k; }
int accept(int fd, struct sockaddr *a, socklen_t *n) { return accept_(fd, a, n); }
int accept4(int fd, struct sockaddr *a, socklen_t *n, int) { return accept_(fd, a, n); }
int shutdown(int fd, int how) __THROW { net::Net& N = net::it(); net::Fd *d = N.get(fd); if (!d) return -1; if (d->kind != 1) return N.fail(ENOTCONN); if (N.next() == 4) return N.fail(ENOTCONN); if (how >= 1) N.con[d->c].fin[d->s] = true; return 0; }
ssize_t read(int fd, void *p, size_t n) { net::Net& N = net::it(); if (verif::Vast::cur() && N.mine(fd)) return verif::Vast::cur()->take(p, n); return N.mine(fd) || fd < 0 ? N.rd(fd, p, n) : (ssize_t)syscall(SYS_read, fd, p, n); }
ssize_t recv(int fd, void *p, size_t n, int fl) { if (verif::Vast::cur()) return verif::Vast::cur()->take(p, n); if (fl & MSG_OOB) { net::it().hard = true; errno = EINVAL; return -1; } if (fl & MSG_PEEK) { net::Net& N = net::it(); net::Fd *d = N.get(fd); if (!d || d->kind != 1) return N.rd(fd, p, n); std::string keep = N.con[d->c].buf[d->s]; ssize_t r = N.rd(fd, p, n); N.con[d->c].buf[d->s] = keep; return r; } return net::it().rd(fd, p, n); }
ssize_t write(int fd, const void *p, size_t n) { net::Net& N = net::it(); if (verif::Vast::cur() && N.mine(fd)) return verif::Vast::cur()->take(p, n); return N.mine(fd) || fd < 0 ? N.wr(fd, p, n) : (ssize_t)syscall(SYS_write, fd, p, n); }
ssize_t send(int fd, const void *p, size_t n, int fl) { if (verif::Vast::cur()) return verif::Vast::cur()->take(p, n); if (fl & MSG_OOB && n) n = 1; return net::it().wr(fd, p, n); }
#ifdef NETSIM_POINT
void NETSIM_POINT(int);
#endif
int close(int fd) { net::Net& N = net::it(); if (!N.mine(fd) && fd >= 0) return (int)syscall(SYS_close, fd);
#ifdef NETSIM_POINT
	NETSIM_POINT(fd);
#endif
	if (!N.get(fd)) return -1; N.closes[fd]++; N.closed(fd); if (N.next() == 4) return N.fail(EIO); return 0; }
int select(int n, fd_set *r, fd_set *w, fd_set *, struct timeval *t) { net::Net& N = net::it(); long ms = t ? t->tv_sec * 1000 + t->tv_usec / 1000 : -1; fd_set *s = r ? r : w; int fd = -1; for (int i = 0; i < n && s; i++) if (FD_ISSET(i, s)) fd = i; if (fd < 0) { N.waited += ms; return 0; } net::Fd *d = N.get(fd); if (!d) return -1; int x = N.wait(d, r == 0, ms); if (x == 0) FD_ZERO(s); return x; }
int poll(struct pollfd *p, nfds_t n, int ms) { net::Net& N = net::it(); if (n < 1) { N.waited += ms; return 0; } net::Fd *d = N.get(p->fd); if (!d) { p->revents = POLLNVAL; return 1; } bool wr = p->events & POLLOUT; int x = N.wait(d, wr, ms); p->revents = x > 0 ? p->events : 0; return x; }
int ioctl(int fd, unsigned long rq, ...) __THROW { va_list a; va_start(a, rq); void *p = va_arg(a, void*); va_end(a); net::Net& N = net::it(); if (!N.mine(fd)) return (int)syscall(SYS_ioctl, fd, rq, p); net::Fd *d = N.get(fd); if (!d) return -1; if (N.next() == 4) return N.fail(ENOMEM); if (rq == FIONBIO) d->nb = *(int*)p != 0; return 0; }
static int fcntl_(int fd, int cmd, long arg) { net::Net& N = net::it(); if (!N.mine(fd)) return (int)syscall(SYS_fcntl, fd, cmd, arg); net::Fd *d = N.get(fd); if (!d) return -1; if (cmd == F_GETFL) return d->nb ? O_NONBLOCK : 0; if (cmd == F_SETFL) d->nb = arg & O_NONBLOCK; return 0; }
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long v = va_arg(a, long); va_end(a); return fcntl_(fd, cmd, v); }
int setsockopt(int fd, int lv, int o, const void *p, socklen_t n) __THROW { net::Net& N = net::it(); net::Fd *d = N.get(fd); if (!d) return -1; if (N.next() == 4) return N.fail(ENOPROTOOPT); d->opt[lv * 1000 + o].assign((const char*)p, n); N.lastOpt = lv * 1000 + o; N.lastVal.assign((const char*)p, n); return 0; }
int getsockopt(int fd, int lv, int o, void *p, socklen_t *n) __THROW { net::Net& N = net::it(); net::Fd *d = N.get(fd); if (!d) return -1; if (lv == SOL_SOCKET && o == SO_ERROR) { memcpy(p, &d->soerr, (std::min)((socklen_t)sizeof(int), *n)); *n = sizeof(int); d->soerr = 0; return 0; } std::string& s = d->opt[lv * 1000 + o]; memset(p, 0, *n); memcpy(p, s.data(), (std::min)((size_t)*n, s.size())); if (!s.empty() && s.size() < *n) *n = s.size(); return 0; }
int getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **r) { typedef int (*F)(const char*, const char*, const struct addrinfo*, struct addrinfo**); static F f = (F)dlsym(RTLD_NEXT, "getaddrinfo"); struct addrinfo hints = *hi; hints.ai_flags |= AI_NUMERICHOST; return f(h, s, &hints, r); } // no name service
}
