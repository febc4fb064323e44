// P40: TLS client connections over a stand-in for the TLS library that keeps its documented contract (retries, partial
// transfers, ends and failures, an object must be cleared before it is used again); the TCP connection is a real local one.
#include <sys/stat.h>
#include <sys/wait.h>
#include <cybozu/ssl.hpp>
#include "verif.hpp"
using namespace verif; typedef std::string S;
static Rng *gR;
#define R (*gR)
struct Tls { int fd; bool used, shaken; int err, lastRet; const void *wb; int wn; };
static bool failNew, failFd, failShake, eof, bad, said, stuck; static int shut, live; static long room; static S rx, got;
static bool want(Tls *t) { if (!R.chance(1, 4)) return false; t->err = R.chance(1, 2) ? SSL_ERROR_WANT_READ : SSL_ERROR_WANT_WRITE; t->lastRet = -1; return true; }
static int fail(Tls *t, int e, int r = -1) { t->err = e; t->lastRet = r; return r; }
extern "C" {
SSL *SSL_new(SSL_CTX *c) { if (failNew || !c) return 0; live++; Tls *t = new Tls; memset(t, 0, sizeof(*t)); t->fd = -1; return (SSL*)t; }
void SSL_free(SSL *s) { if (!s) return; live--; delete (Tls*)s; }
int SSL_clear(SSL *s) { Tls *t = (Tls*)s; t->used = t->shaken = false; t->wb = 0; t->err = 0; return 1; }
int SSL_set_fd(SSL *s, int fd) { if (failFd) return 0; ((Tls*)s)->fd = fd; return 1; }
int SSL_connect(SSL *s) { Tls *t = (Tls*)s; if (t->used) return 1; t->used = true; if (failShake || t->fd < 0 || fcntl(t->fd, F_GETFD) == -1) return fail(t, SSL_ERROR_SSL, R.chance(1, 2) ? 0 : -1); t->shaken = true; return 1; }
int SSL_read(SSL *s, void *b, int n) { Tls *t = (Tls*)s; if (!t->shaken || n <= 0) return fail(t, SSL_ERROR_SSL); if (want(t)) return -1; if (Vast::cur()) { int k = (int)Vast::cur()->take(b, n); return k > 0 ? k : fail(t, SSL_ERROR_SSL); } if (rx.empty()) { if (eof) return fail(t, SSL_ERROR_ZERO_RETURN, 0); if (!bad) stuck = true; return fail(t, R.chance(1, 2) ? SSL_ERROR_SYSCALL : SSL_ERROR_SSL, R.chance(1, 2) ? 0 : -1); } size_t k = std::min((size_t)n, rx.size()); k = 1 + R.below(k); memcpy(b, rx.data(), k); rx.erase(0, k); return (int)k; }
int SSL_write(SSL *s, const void *b, int n) { Tls *t = (Tls*)s; if (!t->shaken || n <= 0) return fail(t, SSL_ERROR_SSL); if (t->wb && (t->wb != b || t->wn > n)) return fail(t, SSL_ERROR_SSL); if (want(t)) { t->wb = b; t->wn = n; return -1; } t->wb = 0; if (Vast::cur()) { int k = (int)Vast::cur()->take(b, n); return k > 0 ? k : fail(t, SSL_ERROR_SSL); } size_t k = R.chance(1, 2) ? n : 1 + R.below(n); if (room >= 0 && (long)k > room) k = room; if (k == 0) return fail(t, R.chance(1, 2) ? SSL_ERROR_SYSCALL : SSL_ERROR_SSL, R.chance(1, 2) ? 0 : -1); if (room >= 0) room -= k; got.append((const char*)b, k); return (int)k; }
int SSL_get_error(const SSL *s, int r) { const Tls *t = (const Tls*)s; return r > 0 ? SSL_ERROR_NONE : r == t->lastRet ? t->err : SSL_ERROR_SSL; }
int SSL_shutdown(SSL *s) { Tls *t = (Tls*)s; said = t->fd >= 0 && fcntl(t->fd, F_GETFD) != -1; t->shaken = false; if (shut < 0) t->err = SSL_ERROR_SSL; return shut; }
void ERR_print_errors_fp(FILE *) {}
// other ways to say the same
int SSL_read_ex(SSL *s, void *b, size_t n, size_t *r) { int k = SSL_read(s, b, (int)std::min(n, (size_t)0x7fffffff)); if (k > 0) { *r = k; return 1; } ((Tls*)s)->lastRet = 0; return 0; }
int SSL_write_ex(SSL *s, const void *b, size_t n, size_t *r) { int k = SSL_write(s, b, (int)std::min(n, (size_t)0x7fffffff)); if (k > 0) { *r = k; return 1; } ((Tls*)s)->lastRet = 0; return 0; }
void SSL_set_connect_state(SSL *s) { SSL_clear(s); }
int SSL_do_handshake(SSL *s) { return SSL_connect(s); }
int SSL_pending(const SSL *) { return (int)rx.size(); }
int SSL_get_fd(const SSL *s) { return ((const Tls*)s)->fd; }
}
static int lsd, port, deadPort;
static int fds() { int n = 0; for (int i = 0; i < 200; i++) { struct stat st; if (i != lsd && fstat(i, &st) == 0 && S_ISSOCK(st.st_mode)) n++; } return n; }
struct Se { Log& L; cybozu::ssl::ClientSocket *c; bool open; size_t serial; int base;
	Se(Log& L_) : L(L_), c(0), open(false), serial(0), base(fds()) { L.start(J().end()); reset(); }
	int n() { return fds() - base; }
	void reset() { rx.clear(); got.clear(); eof = bad = false; room = -1; }
	bool make(bool refuse) { failNew = refuse; bool th = false; L.about("ClientSocket"); try { c = new cybozu::ssl::ClientSocket; } catch (std::exception&) { th = true; c = 0; } failNew = false; L.ev(J("new").b("refuse", refuse).b("thrown", th).n("fds", n())); open = false; return c != 0; }
	void conn(int k) { bool th = false; L.about("connect"); failFd = k == 2; failShake = k == 3; S kr = rx; bool ke = eof, kb = bad; long km = room; if (!open) reset(); try { int p = k == 1 ? deadPort : port; if (R.chance(1, 2)) c->connect("127.0.0.1", (uint16_t)p); else c->connect(cybozu::SocketAddr("127.0.0.1", (uint16_t)p)); } catch (std::exception&) { th = true; } if (open) { rx = kr; eof = ke; bad = kb; room = km; } failFd = failShake = false; int q = ::accept4(lsd, 0, 0, SOCK_NONBLOCK); if (q >= 0) ::close(q); L.ev(J("conn").b("tcp", k != 1).b("setfd", k != 2).b("shake", k != 3).b("thrown", th).n("fds", n())); if (!th) open = true; }
	S data(size_t k) { S s; for (size_t i = 0; i < k; i++) s += (char)(++serial * 37); return s; }
	void peer(size_t k) { if (!open || eof || bad) return; S s = data(k); rx += s; L.ev(J("peer").bytes("d", s)); }
	void end() { if (!open || eof || bad) return; eof = true; L.ev(J("pend")); }
	void brk() { if (!open || eof || bad) return; bad = true; L.ev(J("pbreak")); }
	void limit(long k) { if (!open || room >= 0) return; room = k; L.ev(J("room").n("n", k)); }
	bool ready(size_t k) { return !open || rx.size() >= k || eof || bad; }
	void some(size_t k) { if (!ready(1)) return; S b(k + 16, 'Z'), w = b; bool th = false; size_t r = 0; stuck = false; L.about("readSome"); try { r = c->readSome(&b[8], k); } catch (std::exception&) { th = true; } if (r > k) r = k; bool over = b.substr(0, 8) != w.substr(0, 8) || b.substr(8 + r) != w.substr(8 + r) || stuck; J e("some"); L.ev(e.n("n", k).b("thrown", th).bytes("d", b.substr(8, r)).b("over", over)); }
	void read(size_t k) { if (k && !ready(k)) return; S b(k + 16, 'Z'), w = b; bool th = false; stuck = false; L.about("read"); try { c->read(&b[8], k); } catch (std::exception&) { th = true; } bool over = b.substr(0, 8) != w.substr(0, 8) || b.substr(8 + k) != w.substr(8 + k) || stuck; L.ev(J("read").n("n", k).b("thrown", th).bytes("d", th ? S() : b.substr(8, k)).b("over", over)); }
	void write(size_t k) { S s = data(k); bool th = false; got.clear(); L.about("write"); try { c->write(s.data(), k); } catch (std::exception&) { th = true; } L.ev(J("write").bytes("d", s).b("thrown", th).bytes("got", got)); }
	void close(int s, bool dont) { shut = s; said = false; bool th = false; L.about("close"); try { if (dont) c->close(cybozu::DontThrow); else if (R.chance(1, 2)) c->close(); else c->close(false); } catch (std::exception&) { th = true; } L.ev(J("close").n("shut", s).b("dont", dont).b("thrown", th).n("fds", n()).b("said", said)); if (open) { open = false; reset(); } }
	~Se() { if (c) { shut = R.below(3) - 1; said = false; L.about("~ClientSocket"); delete c; L.ev(J("free").n("fds", n()).n("live", live).b("said", said)); } L.end(); }
};
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; std::vector<std::vector<int> > sc = loadScript(a.script); { Log L(a.out, 20);
	struct sockaddr_in sa; memset(&sa, 0, sizeof(sa)); sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t sl = sizeof(sa);
	// a port nobody listens on: bound and never listening
	int dsd = socket(AF_INET, SOCK_STREAM, 0); if (bind(dsd, (struct sockaddr*)&sa, sl)) abort(); getsockname(dsd, (struct sockaddr*)&sa, &sl); deadPort = ntohs(sa.sin_port);
	sa.sin_port = 0; lsd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0); if (bind(lsd, (struct sockaddr*)&sa, sl) || listen(lsd, 100)) abort(); getsockname(lsd, (struct sockaddr*)&sa, &sl); port = ntohs(sa.sin_port);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i) && (a.effort > 1 || R.chance(1, 2))) { Se s(L); if (!s.make(false)) continue; for (size_t j = 0; j + 2 < sc[i].size(); j += 3) { int o = sc[i][j], x = sc[i][j + 1], y = sc[i][j + 2]; switch (o) { case 1: s.conn(x); break; case 2: s.peer(x); break; case 3: s.end(); break; case 4: s.brk(); break; case 5: s.limit(x); break; case 6: s.some(x); break; case 7: s.read(x); break; case 8: s.write(x); break; default: s.close(x - 2, y != 0); } } }
	for (int i = 0; i < 100 * a.effort; i++) { Se s(L); if (R.chance(1, 10) && !s.make(true) && R.chance(1, 2)) continue; if (!s.c && !s.make(false)) continue; int m = 4 + R.below(20); while (m--) { size_t z = R.chance(1, 8) ? 200 + R.below(3000) : R.below(20); switch (R.below(14)) { case 0: case 1: case 2: s.conn(R.chance(1, 2) ? 0 : R.below(4)); break; case 3: case 4: s.peer(1 + z); break; case 5: if (R.chance(1, 4)) s.end(); break; case 6: if (R.chance(1, 4)) s.brk(); break; case 7: if (R.chance(1, 3)) s.limit(z); break; case 8: case 9: s.some(1 + z); break; case 10: s.read(z); break; case 11: case 12: s.write(z); break; default: s.close(R.below(3) - 1, R.chance(1, 2)); } } }
	for (size_t i = 0; i < 7; i++) if (a.mine(i)) for (int k = 0; k < 3; k++) { Se s(L); if (!s.make(false)) continue; s.conn(0); L.about("vast"); bool ok = true; { Vast v(Vast::size(i), Vast::part(k)); try { s.c->write(v.p, v.n); } catch (std::exception&) { ok = false; } vastEvent(L, "write", v, ok); v.done = 0; ok = true; try { s.c->read(v.p, v.n); } catch (std::exception&) { ok = false; } vastEvent(L, "read", v, ok); } }
	L.start(J().end()); L.about("exit"); L.flush(); pid_t p = fork(); if (p == 0) { Log::detach(); alarm(30); int z = ::open("/dev/null", O_WRONLY); dup2(z, 2); exit(0); } int st = -1; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} L.ev(J("exit").n("st", st)); L.end(); }
	_exit(0); // a crash at the end has been logged
}
