// P30: sockets against a scripted system
#include "netsim.hpp"
#include <cybozu/socket.hpp>
#include "verif.hpp"
using namespace verif;
typedef std::string S; typedef cybozu::Socket So;
static net::Net& N = net::it();
static Rng *gR;
#define R (*gR)
struct Arm { Arm(int lv) { N.hard = N.intr = false; N.lastFd = -1; N.waited = 0; N.q.clear(); N.qi = 0; int n = lv == 0 ? 0 : (int)R.below(7); bool h = lv > 1 && R.chance(1, 5); for (int i = 0; i < n; i++) N.q.push_back(h && R.chance(1, 3) ? 4 : R.chance(1, 4) ? 1 : R.below(4)); if (h && R.chance(1, 2)) { N.q.assign(R.below(5), 0); N.q.push_back(4); } N.armed = true; } ~Arm() { N.armed = false; } };
S rnd(size_t n) { S s(n, 0); for (size_t i = 0; i < n; i++) s[i] = char(R.u64()); return s; }
struct Se { Log& L; So *h[6]; int n, lv, nlis; std::map<int, int> lid; bool big;
	Se(Log& L_, int n_, int lv_) : L(L_), n(n_), lv(lv_), nlis(0) { big = R.chance(1, 8); N.reset(big ? 1022 : 100); L.start(J().n("n", n).end()); for (int k = 1; k <= n; k++) h[k] = new So; }
	~Se() { fds(); for (int k = 1; k <= n; k++) destroy(k, false); fds(); L.end(); }
	void fds() { L.ev(J("fds").n("r", N.count()).n("bad", N.bad)); }
	int level(int c) { return lv > 1 && !R.chance(1, c) ? 1 : lv; }
	void valid(int k) { bool v = h[k]->isValid(); L.ev(J("valid").n("k", k).b("r", v).b("nb", v && N.anyNb())); }
	void after(int k) { valid(k); if (R.chance(1, 2)) fds(); }
	void bind(int k, int port) { bool th = false; L.about("bind"); { Arm A(level(3)); try { int m = R.below(3); if (m == 0) h[k]->bind(port); else h[k]->bind(port, m); } catch (std::exception&) { th = true; } } L.ev(J("bind").n("k", k).b("hard", N.hard).b("thrown", th)); if (!th) lid[port] = ++nlis; after(k); }
	void connect(int k, int port, int ms) { bool th = false; int l = lid.count(port) && N.listener(port) ? lid[port] : 0; L.about("connect"); cybozu::SocketAddr ad("127.0.0.1", port); { Arm A(level(2)); try { if (R.chance(1, 3)) h[k]->connect("127.0.0.1", port, ms); else h[k]->connect(ad, ms); } catch (std::exception&) { th = true; } } L.ev(J("connect").n("k", k).n("l", l).n("ms", ms).b("hard", N.hard || (th && big)).b("intr", N.intr).b("thrown", th)); after(k); }
	void accept(int k, int j) { bool th = false, ad = true; L.about("accept"); cybozu::SocketAddr a; bool useA = R.chance(1, 2); { Arm A(level(3)); try { if (useA) h[k]->accept(*h[j], &a); else h[k]->accept(*h[j]); } catch (std::exception&) { th = true; } } if (useA && !th) { int c = N.lastCon; char b[64]; snprintf(b, sizeof(b), c % 2 ? "[::1]:%d" : "127.0.0.1:%d", 40000 + c); try { ad = a.toStr() == b && a.getPort() == 40000 + c; } catch (std::exception&) { ad = false; } } L.ev(J("accept").n("k", k).n("j", j).b("hard", N.hard).b("intr", N.intr).b("addr", ad).b("thrown", th)); after(j); }
	void flow(int k) { if (N.lastFd < 0) return; net::Fd& d = N.f[N.lastFd]; if (d.open && d.kind == 1) L.ev(J("flow").n("k", k).bytes("in", N.con[d.c].buf[d.s]).bytes("out", N.con[d.c].buf[1 - d.s])); }
	void write(int k, const S& d) { bool ok = true; char *p = (char*)malloc(d.size() + 1); memcpy(p + 1, d.data(), d.size()); L.about("write"); { Arm A(level(3)); if (R.chance(1, 3)) { ok = R.below(2); h[k]->write(&ok, p + 1, d.size()); } else try { h[k]->write(p + 1, d.size()); } catch (std::exception&) { ok = false; } } free(p); L.ev(J("write").n("k", k).bytes("data", d).b("hard", N.hard).b("ok", ok)); flow(k); }
	void rd(int k, size_t sz, bool x) { bool th = false; char *p = (char*)malloc(sz + 1); size_t r = sz; L.about(x ? "read" : "readSome"); { Arm A(level(3)); try { if (x) h[k]->read(p, sz); else r = h[k]->readSome(p, sz); } catch (std::exception&) { th = true; } } L.ev(J(x ? "read" : "some").n("k", k).n("n", sz).bytes("r", S(p, th ? 0 : r <= sz ? r : 0)).b("hard", N.hard).b("thrown", th)); free(p); flow(k); }
	void shut(int k) { bool ok = true; L.about("shutdown"); { Arm A(level(3)); if (R.chance(1, 2)) ok = h[k]->shutdown(1, true); else try { ok = h[k]->shutdown(1); } catch (std::exception&) { ok = false; } } L.ev(J("shut").n("k", k).b("hard", N.hard).b("ok", ok)); }
	void waitClose(int k) { bool th = false; L.about("waitForClose"); { Arm A(level(3)); try { h[k]->waitForClose(); } catch (std::exception&) { th = true; } } L.ev(J("waitclose").n("k", k).b("hard", N.hard).b("thrown", th)); }
	void query(int k) { static const int t[] = { 0, 1, 999, 1000, 1500, 12345 }; int ms = t[R.below(6)], r = -1; L.about("queryAccept"); { Arm A(level(3)); if (R.chance(1, 2)) { r = h[k]->queryAcceptNoThrow(ms); if (r < 0) r = -1; } else try { r = h[k]->queryAccept(ms) ? 1 : 0; } catch (std::exception&) {} } L.ev(J("query").n("k", k).n("msec", ms).n("waited", N.waited).b("hard", N.hard || (r < 0 && big)).b("intr", N.intr).n("r", r)); }
	void close(int k) { bool ok = true; L.about("close"); { Arm A(level(3)); if (R.chance(1, 2)) ok = h[k]->close(true); else try { ok = h[k]->close(); } catch (std::exception&) { ok = false; } } L.ev(J("close").n("k", k).b("hard", N.hard).b("ok", ok)); after(k); }
	void destroy(int k, bool again) { L.about("destroy"); { Arm A(level(3)); delete h[k]; } L.ev(J("destroy").n("k", k)); h[k] = again ? new So : 0; if (again) after(k); }
	void move(int k, int j) { bool th = false; L.about("move"); int m = R.below(3); if (m == 0 && k == j) m = 1; if (m == 0) { destroy(k, false); { Arm A(0); h[k] = new So(std::move(*h[j])); } } else { Arm A(level(3)); try { if (m == 1) h[k]->moveFrom(*h[j]); else *h[k] = std::move(*h[j]); } catch (std::exception&) { th = true; } } L.ev(J("move").n("k", k).n("j", j).b("hard", N.hard).b("thrown", th)); after(k); valid(j); }
	template<class T> static T raw(int k, const S& s) { T t; memset(&t, 0, sizeof(t)); memcpy(&t, s.data(), (std::min)(sizeof(t), s.size())); return t; }
	void opt(int k) { bool th = false; std::vector<int> x, sys, back; int c = R.below(5), v = R.chance(1, 3) ? R.below(5) : R.below(100000), v2 = R.below(60000); L.about("option"); So& s = *h[k]; N.lastOpt = -1;
		{ Arm A(level(3)); try { switch (c) { case 0: v %= 60000; s.setLinger(v, v2); break; case 1: s.setReceiveTimeout(v); break; case 2: s.setSendTimeout(v); break; case 3: s.setReceiveBufferSize(v); break; default: s.setSendBufferSize(v); } } catch (std::exception&) { th = true; } }
		bool hard = N.hard; x.push_back(v); if (c == 0) x.push_back(v2);
		if (!th) { static const int o[] = { SO_LINGER, SO_RCVTIMEO, SO_SNDTIMEO, SO_RCVBUF, SO_SNDBUF }; S d; if (N.lastOpt == SOL_SOCKET * 1000 + o[c]) d = N.lastVal; Arm A(0); try { if (c == 0) { struct linger l = raw<struct linger>(0, d); sys.push_back(l.l_onoff); sys.push_back(l.l_linger); struct linger m; s.getSocketOption(SO_LINGER, &m); back.push_back(m.l_onoff); back.push_back(m.l_linger); } else if (c < 3) { struct timeval t = raw<struct timeval>(0, d); sys.push_back(t.tv_sec * 1000 + t.tv_usec / 1000); back.push_back(c == 1 ? s.getReceiveTimeout() : s.getSendTimeout()); } else { sys.push_back(raw<int>(0, d)); back.push_back(c == 3 ? s.getReceiveBufferSize() : s.getSendBufferSize()); } } catch (std::exception&) {} }
		L.ev(J("opt").n("k", k).nums("x", x).nums("sys", sys).nums("back", back).b("hard", hard).b("thrown", th)); }
	static S text(const S& a) { char b[64]; const unsigned char *u = (const unsigned char*)a.data(); if (a.size() == 4) snprintf(b, sizeof(b), "%d.%d.%d.%d", u[0], u[1], u[2], u[3]); else { S t; for (int i = 0; i < 16; i += 2) { snprintf(b, sizeof(b), "%s%x", i ? ":" : "", u[i] * 256 + u[i + 1]); t += b; } return t; } return b; }
	static S rndAddr() { S a = rnd(R.chance(1, 2) ? 4 : 16); if (a.size() == 16) { if (R.chance(1, 2)) for (int i = 0; i < 10; i++) a[i] = 0, a[10] = a[11] = char(255); if (R.chance(1, 6)) a[R.below(12)] ^= 1 << R.below(8); } return a; }
	void addr() { S a = rndAddr(), b; bool v6 = R.chance(1, 3); int port = R.below(65536); L.about("SocketAddr"); try { cybozu::SocketAddr x(text(a), port, v6); S t = x.toStr(), host; size_t c = t.rfind(':'); host = t.substr(0, c); S back; if (!host.empty() && host[0] == '[') { in6_addr i; if (inet_pton(AF_INET6, host.substr(1, host.size() - 2).c_str(), &i) == 1) back.assign((char*)&i, 16); } else { in_addr i; if (inet_pton(AF_INET, host.c_str(), &i) == 1) back.assign((char*)&i, 4); } L.ev(J("addr").bytes("a", a).b("v6", v6).n("port", port).bytes("back", back).n("rport", atoi(t.c_str() + c + 1)).n("gport", x.getPort()));
			b = rndAddr(); if (R.chance(1, 2)) { b = a; if (R.chance(1, 2)) b = a.size() == 4 ? S("\0\0\0\0\0\0\0\0\0\0\xff\xff", 12) + a : a.substr(12); if (R.chance(1, 3)) b[R.below(b.size())] ^= 1 << R.below(8); } cybozu::SocketAddr y(text(b), port); L.ev(J("same").bytes("a", a.size() == 4 && v6 ? S("\0\0\0\0\0\0\0\0\0\0\xff\xff", 12) + a : a).bytes("b", b).b("r", R.chance(1, 2) ? x.hasSameAddr(y) : y.hasSameAddr(x))); } catch (std::exception&) { L.ev(J("addrThrown")); } }
};
void bigAll(Log& L, const Args& a) { std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 1100000 : 140000); for (size_t q = 0; q < z.size(); q++) { size_t n = z[q]; N.reset(100); L.start(J().n("n", 3).end()); L.about("big"); S d = bigData(n, R.u64()), r(n, 0); bool ok = true; size_t g = 0; try { So l, c, s; l.bind(5000); c.connect("127.0.0.1", 5000); l.accept(s); { Arm A(R.below(2)); c.write(d.data(), n); } if (R.chance(1, 2)) { Arm A(R.below(2)); s.read(&r[0], n); g = n; } else while (g < n) { Arm A(1); size_t k = s.readSome(&r[g], R.chance(1, 2) ? n - g : 1 + R.below(n - g)); if (k == 0) break; g += k; } } catch (std::exception&) { ok = false; } bigEvent(L, "transfer", n, g, ok && r == d); L.end(); } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out, 20); std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i) && (a.effort > 1 || R.chance(1, 6))) { Se s(L, 3, R.below(3)); for (size_t j = 0; j < sc[i].size(); j++) { int c = sc[i][j]; int ms = R.chance(1, 2) ? 0 : 500; switch (c) { case 1: s.bind(1, 5000); break; case 2: s.connect(2, 5000, ms); break; case 3: s.accept(1, 3); break; case 4: s.write(2, rnd(1 + R.below(6))); break; case 5: s.rd(3, 1 + R.below(6), R.chance(1, 2)); break; case 6: s.close(2); break; case 7: s.close(3); break; case 8: s.close(1); break; case 9: s.move(3, 2); break; case 10: s.move(1, 3); break; case 11: s.destroy(2, true); break; case 12: s.connect(3, 5000, ms); break; case 13: s.waitClose(2); break; case 14: s.accept(1, 2); break; default: s.query(1); } } }
	for (int i = 0; i < 250 * a.effort; i++) { Se s(L, 5, R.below(3)); if (R.chance(3, 4)) { s.bind(1, 5000); s.connect(2, 5000, 0); if (R.chance(2, 3)) s.accept(1, 3); } for (int len = 4 + R.below(25); len--;) { int k = 1 + R.below(5), j = 1 + R.below(5), port = 5000 + R.below(3);
		switch (R.below(24)) { case 0: if (R.chance(1, 2)) s.bind(k, port + s.nlis * 3); break; case 1: case 2: { int p = 5000 + R.below(3); if (!s.lid.empty() && R.chance(3, 4)) { std::map<int, int>::iterator it = s.lid.begin(); std::advance(it, R.below(s.lid.size())); p = it->first; } s.connect(k, p, R.chance(1, 2) ? 0 : 1 + R.below(3000)); } break; case 3: case 4: s.accept(R.chance(2, 3) ? 1 : k, j == 1 && R.chance(2, 3) ? 4 : j); break;
		case 5: case 6: case 7: s.write(k, rnd(R.chance(1, 15) ? 100 + R.below(1500) : R.below(14))); break; case 8: case 9: case 10: s.rd(k, R.chance(1, 15) ? R.below(1500) : R.below(14), true); break; case 11: case 12: case 13: s.rd(k, R.chance(1, 15) ? R.below(1500) : R.below(14), false); break;
		case 14: s.shut(k); break; case 15: s.waitClose(k); break; case 16: case 17: s.query(k); break; case 18: s.close(k); break; case 19: if (R.chance(1, 2)) s.destroy(k, true); break; case 20: case 21: s.move(k, j); break; case 22: s.opt(k); break; default: s.addr(); } } }
	bigAll(L, a);
	for (size_t i = 0; i < 7; i++) if (a.mine(i)) for (int k = 0; k < 3; k++) { N.reset(100); L.start(J().n("n", 3).end()); L.about("vast"); { So l, c, s; l.bind(5000); c.connect("127.0.0.1", 5000); l.accept(s); bool ok = true; { Vast v(Vast::size(i), Vast::part(k)); try { if (k == 1) c.write(&ok, v.p, v.n); else c.write(v.p, v.n); } catch (std::exception&) { ok = false; } vastEvent(L, "send", v, ok); v.done = 0; ok = true; try { s.read(v.p, v.n); } catch (std::exception&) { ok = false; } vastEvent(L, "receive", v, ok); v.done = 0; size_t g = 0; ok = true; try { while (g < v.n) { size_t z = s.readSome(v.p + g, v.n - g); if (z == 0 || z > v.n - g) { ok = false; break; } g += z; } } catch (std::exception&) { ok = false; } vastEvent(L, "some", v, ok && g == v.n); } } L.end(); }
	return 0;
}
