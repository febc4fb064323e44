// P32: generators and shuffles
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <dlfcn.h>
#include <stdarg.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <algorithm>
#include <map>
#include <cybozu/xorshift.hpp>
#include <cybozu/pcg.hpp>
#include <cybozu/random_generator.hpp>
#include <cybozu/nlp/random.hpp>
#include "verif.hpp"
using namespace verif; typedef std::string S;
static Rng *gR;
#define R (*gR)
static const char *srcFile; static bool srcMissing;
extern "C" FILE *fopen(const char *p, const char *m) { typedef FILE *(*F)(const char*, const char*); static F f = (F)dlsym(RTLD_NEXT, "fopen"); if (srcFile && !strcmp(p, "/dev/urandom")) { if (srcMissing) { errno = ENOENT; return 0; } p = srcFile; } return f(p, m); }
extern "C" int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (srcFile && !strcmp(p, "/dev/urandom")) { if (srcMissing) { errno = ENOENT; return -1; } p = srcFile; } return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
// a huge request: how far would the transfer go
static bool hugeMode; static uint64_t hugeAsk;
extern "C" size_t fread(void *p, size_t s, size_t n, FILE *f) { typedef size_t (*F)(void*, size_t, size_t, FILE*); static F g = (F)dlsym(RTLD_NEXT, "fread"); if (hugeMode) { hugeAsk = n && s > ~size_t(0) / n ? ~uint64_t(0) : (uint64_t)s * n; return n; } return g(p, s, n, f); }
std::vector<uint64_t> words(int n, bool w64) { std::vector<uint64_t> v(n); for (int i = 0; i < n; i++) { v[i] = R.u64(); if (R.chance(1, 4)) v[i] = R.below(3); if (!w64) v[i] = (uint32_t)v[i]; } return v; }
S lst(const std::vector<uint64_t>& v, int limbs) { std::vector<S> t; for (size_t i = 0; i < v.size(); i++) { J j; j.limbs("a", v[i], limbs); S s = j.end(); t.push_back(s.substr(5, s.size() - 6)); } return jlist(t); }
struct Any { cybozu::XorShift xs; cybozu::XorShift128Plus xp; cybozu::Xoroshiro128Plus xo; cybozu::Pcg32 pcg; int k; };
static const char *nm[] = { "xs", "xp", "xo", "pcg" };
struct Se { Log& L; Any a[4];
	Se(Log& L_) : L(L_) { L.start(); for (int g = 1; g < 4; g++) seed(g); } ~Se() { L.end(); }
	void seed(int g) { int k = R.below(4); a[g].k = k; std::vector<uint64_t> v; L.about("init"); switch (k) {
		case 0: v = words(4, false); switch (R.below(3)) { case 0: a[g].xs.init(v[0], v[1], v[2], v[3]); break; case 1: a[g].xs = cybozu::XorShift(v[0], v[1], v[2], v[3]); break; default: v[1] = v[2] = v[3] = 0; if (R.chance(1, 2)) a[g].xs.init(v[0]); else { v[0] = 0; a[g].xs = cybozu::XorShift(); } } break;
		case 1: v = words(2, true); switch (R.below(3)) { case 0: a[g].xp.init(v[0], v[1]); break; case 1: a[g].xp = cybozu::XorShift128Plus(v[0], v[1]); break; default: v[0] = 123456789; v[1] = 987654321; a[g].xp.init(); } break;
		case 2: v = words(2, true); switch (R.below(3)) { case 0: a[g].xo.init(v[0], v[1]); break; case 1: a[g].xo = cybozu::Xoroshiro128Plus(v[0], v[1]); break; default: v[0] = 123456789; v[1] = 987654321; a[g].xo.init(); } break;
		default: v = words(1, true); if (R.chance(1, 4)) { v[0] = 0x185706b82c2e03f8ULL; a[g].pcg = cybozu::Pcg32(); } else a[g].pcg = cybozu::Pcg32(v[0]); }
		L.ev(J("seed").n("g", g).str("k", nm[k]).raw("v", lst(v, k == 0 ? 2 : 4))); }
	template<class G> void op(G& g, int id, int k, int what) { bool w64 = k == 1 || k == 2; switch (what) {
		case 0: { uint32_t r = g.get32(); L.ev(J("get32").n("g", id).limbs("r", r, 2)); } break; case 1: { uint64_t r = g.get64(); L.ev(J("get64").n("g", id).limbs("r", r)); } break; default: { uint64_t r = g(); L.ev(J("call").n("g", id).limbs("r", r, w64 ? 4 : 2)); } } }
	void bytes(int id, const S& r, int u, bool ok) { L.ev(J("bytes").n("g", id).n("u", u).bytes("r", r).b("ok", ok)); }
	template<class T, class G> void rd(G& g, int id) { size_t n = R.below(R.chance(1, 6) ? 40 : 12); T *p = new T[n]; bool ok = false; L.about("read"); if (R.chance(1, 2)) g.read(&ok, p, n); else ok = g.read(p, n) == n; bytes(id, S((char*)p, n * sizeof(T)), sizeof(T), ok); delete[] p; }
	template<class G> void rds(G& g, int id) { switch (R.below(4)) { case 0: case 1: rd<uint8_t>(g, id); break; case 2: rd<uint16_t>(g, id); break; default: rd<uint64_t>(g, id); } }
	template<class T> void rdp(cybozu::Pcg32& g, int id) { size_t n = R.below(9); T *p = new T[n]; g.read(p, n); bytes(id, S((char*)p, n * sizeof(T)), sizeof(T), true); delete[] p; }
	void step() { int g = 1 + R.below(3), w = R.below(6); Any& x = a[g]; L.about("draw"); if (w < 3) { switch (x.k) { case 0: op(x.xs, g, 0, w); break; case 1: op(x.xp, g, 1, w); break; case 2: op(x.xo, g, 2, w); break; default: op(x.pcg, g, 3, w); } }
		else if (w < 5) { switch (x.k) { case 0: rds(x.xs, g); break; case 1: rds(x.xp, g); break; case 2: rds(x.xo, g); break; default: switch (R.below(3)) { case 0: rdp<uint8_t>(x.pcg, g); break; case 1: rdp<uint32_t>(x.pcg, g); break; default: rdp<uint64_t>(x.pcg, g); } } }
		else if (R.chance(1, 3)) seed(g); else { int h = 1 + R.below(3); a[g] = a[h]; L.ev(J("copy").n("g", g).n("h", h)); } } };
struct Fixed { std::vector<uint64_t> v; size_t i; uint64_t get64() { return i < v.size() ? v[i++] : 0; } uint32_t get32() { return (uint32_t)get64(); } uint32_t operator()() { return get32(); } };
void shuf(Log& L, size_t n) { std::vector<int> v(n), o; for (size_t i = 0; i < n; i++) v[i] = R.chance(1, 2) ? (int)i : R.below(5); o = v; Fixed f; f.i = 0; for (size_t i = 0; i < n + 2; i++) f.v.push_back(R.chance(1, 4) ? ~uint64_t(0) - R.below(3) : R.chance(1, 3) ? R.below(n + 2) : R.u64()); L.about("shuffle"); if (R.chance(1, 2)) cybozu::shuffle(o, f); else { std::vector<int> b(n + 2, -7); std::copy(v.begin(), v.end(), b.begin() + 1); cybozu::shuffle(&b[1], n, f); o.assign(b.begin() + 1, b.begin() + 1 + n); if (b[0] != -7 || b[n + 1] != -7) o.push_back(-7); } L.ev(J("shuf").nums("in", v).nums("out", o)); }
// every sequence of draws from 12 equally likely values
struct Tree { std::vector<int> c; size_t i; uint64_t get64() { if (i == c.size()) c.push_back(0); int k = c[i++]; uint64_t v = (~uint64_t(0) / 12) * k; v -= v % 12; return v + k; } uint32_t get32() { return (uint32_t)get64(); } uint32_t operator()() { return get32(); } bool next() { while (!c.empty() && c.back() == 11) c.pop_back(); if (c.empty()) return false; c.back()++; return true; } };
void shufall(Log& L, int n) { Tree t; std::map<std::vector<int>, long> m; do { t.i = 0; std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = i; cybozu::shuffle(v, t); long w = 1; for (size_t d = t.i; d < 4; d++) w *= 12; m[v] += w; } while (t.next()); std::vector<int> c; for (std::map<std::vector<int>, long>::iterator i = m.begin(); i != m.end(); ++i) c.push_back((int)i->second); L.ev(J("shufall").n("n", n).nums("c", c)); }
J lim53(const char *op, int g, double z) { return J(op).n("g", g).limbs("r", (uint64_t)ldexp(z, 53)); }
void uniform(Log& L) { int seed = R.chance(1, 3) ? 0 : R.chance(1, 2) ? R.below(1000) : (int)R.u64(); std::vector<uint64_t> v(4); v[0] = (uint32_t)seed; L.start();
	{ cybozu::nlp::UniformRandomGenerator u(0, 1, seed); if (R.chance(1, 2)) u.init(seed); L.ev(J("seed").n("g", 1).str("k", "xs").raw("v", lst(v, 2))); for (int i = 0; i < 5; i++) { double d = u.getDouble(); L.ev(lim53("frac", 1, d)); uint32_t x = u(); L.ev(J("get32").n("g", 1).limbs("r", x, 2)); uint64_t y = u.get64(); L.ev(J("get64").n("g", 1).limbs("r", y)); } }
	{ double a = R.range(-1000, 1000), b = a + 1 + R.below(2000); cybozu::nlp::UniformRandomGenerator u(a, b, seed); L.ev(J("seed").n("g", 2).str("k", "xs").raw("v", lst(v, 2))); for (int i = 0; i < 5; i++) { double d = u.getDouble(); L.ev(J("range").n("g", 2).b("in", a <= d && d < b)); } }
	{ double m = R.range(-50, 50), s = 1 + R.below(9); cybozu::nlp::NormalRandomGenerator g(m, s, seed); if (R.chance(1, 3)) g.init(seed); L.ev(J("seed").n("g", 3).str("k", "xs").raw("v", lst(v, 2))); for (int i = 0; i < 2; i++) { double d = g.get(); double z = floor((d - m) / s * 65536); if (!(fabs(z) < 1e6)) z = 1e6; L.ev(J("norm").n("g", 3).n("r", (int64_t)z)); } }
	L.end(); }
void source(Log& L) { // the system's random source as a file of known bytes
	L.start(); size_t n = R.below(80); S d(n, 0); for (size_t i = 0; i < n; i++) d[i] = (char)R.u64(); bool miss = R.chance(1, 10); char f[40]; snprintf(f, sizeof(f), "src%d", (int)getpid()); int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (::write(fd, d.data(), n) != (ssize_t)n) exit(2); close(fd);
	srcFile = f; srcMissing = miss; L.ev(J("source").n("g", 1).bytes("src", d).b("ok", !miss)); L.about("RandomGenerator");
	cybozu::RandomGenerator *g = 0; bool th = false; try { g = new cybozu::RandomGenerator; } catch (std::exception&) { th = true; } if (!g) { if (miss) L.ev(J("nosrc").b("thrown", th)); else L.ev(J("nosrc").b("thrown", false)); }
	for (int i = 0; g && i < 8; i++) { bool ok = true; S r; size_t sz = 0; try { switch (R.below(5)) { case 0: { sz = 4; uint32_t v = g->get32(); r.assign((char*)&v, 4); } break; case 1: { sz = 8; uint64_t v = g->get64(); r.assign((char*)&v, 8); } break; case 2: { sz = 4; uint32_t v = (*g)(); r.assign((char*)&v, 4); } break; case 3: { size_t m = R.below(12); sz = m * 2; uint16_t *p = new uint16_t[m]; try { g->read(p, m); } catch (std::exception&) { ok = false; } r.assign((char*)p, sz); delete[] p; } break; default: { sz = R.below(20); char *p = new char[sz]; g->read(&ok, p, sz); r.assign(p, sz); delete[] p; } } } catch (std::exception&) { ok = false; } if (!ok) r.clear(); L.ev(J("sys").n("g", 1).n("n", sz).bytes("r", r).b("ok", ok)); if (!ok) break; }
	delete g; srcFile = 0; unlink(f); L.end(); }
void huge(Log& L) { L.start(); L.about("RandomGenerator huge"); const size_t n = (size_t(1) << 31) + 4096; char *p = (char*)mmap(0, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p != MAP_FAILED) { mprotect(p + n, 4096, PROT_NONE); cybozu::RandomGenerator g; bool ok = true; hugeMode = true; hugeAsk = 0; g.read(&ok, p, n); hugeMode = false; L.ev(J("huge").b("over", hugeAsk > n)); munmap(p, n + 4096); } L.end(); }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out, 60); std::vector<std::vector<int> > sc = loadScript(a.script);
	if (a.shard == 0) huge(L);
	L.start(); for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { size_t n = sc[i].size() + 1; std::vector<int> v(n), o; for (size_t j = 0; j < n; j++) v[j] = (int)j * 3; o = v; Fixed f; f.i = 0; f.v.assign(sc[i].begin(), sc[i].end()); cybozu::shuffle(o, f); L.ev(J("shuf").nums("in", v).nums("out", o)); } L.end();
	L.start(); for (int n = 0; n <= 4; n++) shufall(L, n); for (int i = 0; i < 40 * a.effort; i++) shuf(L, R.below(R.chance(1, 5) ? 60 : 9)); L.end();
	for (int i = 0; i < 60 * a.effort; i++) { Se s(L); for (int n = 0; n < 25; n++) s.step(); }
	for (int i = 0; i < 25 * a.effort; i++) uniform(L);
	for (int i = 0; i < 60 * a.effort; i++) source(L);
	return 0;
}
