// P22: File, Mmap and the file operations, with scripted system call results
#include <string.h>
#include <algorithm>
#include <errno.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <cybozu/file.hpp>
#include <cybozu/mmap.hpp>
#include "verif.hpp"
using namespace verif;
typedef std::string S;
static Rng *gR;
#define R (*gR)
// the system: armed while an operation under test runs
static struct Sys { bool armed, hard, synced; std::vector<int> q; size_t i; int next() { return armed && i < q.size() ? q[i++] : 0; } } sys;
extern "C" ssize_t write(int fd, const void *p, size_t n) {
	if (Vast::cur() && sys.armed) return Vast::cur()->take(p, n);
	switch (sys.next()) { case 1: errno = EINTR; return -1; case 2: if (n > 1) n = 1; break; case 3: if (n > 1) n = (n + 1) / 2; break; case 4: sys.hard = true; errno = ENOSPC; return -1; }
	return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t read(int fd, void *p, size_t n) {
	if (Vast::cur() && sys.armed) return Vast::cur()->take(p, n);
	switch (sys.next()) { case 1: errno = EINTR; return -1; case 2: if (n > 1) n = 1; break; case 3: if (n > 1) n = (n + 1) / 2; break; case 4: sys.hard = true; errno = EIO; return -1; }
	return syscall(SYS_read, fd, p, n);
}
extern "C" int fdatasync(int) { if (sys.armed && sys.next() == 4) { sys.hard = true; errno = EIO; return -1; } sys.synced = true; return 0; }
extern "C" int fsync(int) { if (sys.armed && sys.next() == 4) { sys.hard = true; errno = EIO; return -1; } sys.synced = true; return 0; }
extern "C" int close(int fd) { int r = (int)syscall(SYS_close, fd); if (sys.armed && sys.next() == 4) { sys.hard = true; errno = EIO; return -1; } return r; }
static int open_(const char *f, int fl, mode_t m) { if (sys.armed && sys.next() == 4) { sys.hard = true; errno = EACCES; return -1; } return (int)syscall(SYS_openat, AT_FDCWD, f, fl, m); }
extern "C" int open(const char *f, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return open_(f, fl, m); }
static bool sysFail; // mmap failure
extern "C" void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { if (sys.armed && sysFail) { sys.hard = true; errno = ENOMEM; return MAP_FAILED; } return (void*)syscall(SYS_mmap, a, n, pr, fl, fd, o); }
struct Arm { Arm(int level) { sys.hard = sys.synced = false; sys.q.clear(); sys.i = 0; int n = level == 0 ? 0 : (int)R.below(6); bool hard = level > 1 && R.chance(1, 6); for (int i = 0; i < n; i++) sys.q.push_back(hard && R.chance(1, 3) ? 4 : R.chance(1, 3) ? 1 : R.below(4)); if (hard && R.chance(1, 2)) { sys.q.clear(); sys.q.push_back(4); } sys.armed = true; } ~Arm() { sys.armed = false; } };
// descriptors of files in the scratch directory (the sanitizer opens its own now and then)
int fdCount() { static char cwd[4096]; if (!cwd[0] && !getcwd(cwd, sizeof(cwd))) abort(); int n = 0; size_t l = strlen(cwd); for (int i = 3; i < 64; i++) { char p[64], b[4096]; snprintf(p, sizeof(p), "/proc/self/fd/%d", i); ssize_t k = readlink(p, b, sizeof(b)); if (k > (ssize_t)l && memcmp(b, cwd, l) == 0 && b[l] == '/') n++; } return n; }
S slurp(const char *f, bool& ex) { S s; int fd = ::open(f, O_RDONLY); ex = fd >= 0; if (!ex) return s; char b[4096]; ssize_t n; while ((n = syscall(SYS_read, fd, b, sizeof(b))) > 0) s.append(b, n); ::close(fd); return s; }
S rnd(size_t n) { S s(n, 0); for (size_t i = 0; i < n; i++) s[i] = char(R.u64()); return s; }
struct Se {
	Log& L; cybozu::File *f[4]; const char *on[4]; bool isOpen[4]; int raw[4]; int base; int level; std::vector<int> leftover;
	Se(Log& L_, int lv) : L(L_), level(lv) { L.start(); unlink("a"); unlink("b"); for (int i = 0; i < 4; i++) f[i] = new cybozu::File, on[i] = 0, isOpen[i] = false, raw[i] = -1; base = fdCount(); }
	~Se() { for (int k = 1; k <= 3; k++) del(k, false); end(); for (size_t i = 0; i < leftover.size(); i++) ::close(leftover[i]); delete f[0]; L.end(); }
	void end() { cat("a"); cat("b"); L.ev(J("fds").n("r", fdCount() - base)); }
	void cat(const char *n) { bool ex; S d = slurp(n, ex); L.ev(J("cat").str("f", n).b("ex", ex).bytes("d", d)); }
	void open(int k, const char *n, bool in, bool out, bool app, bool trunc) {
		std::ios::openmode m = std::ios::openmode(0); if (in) m |= std::ios::in; if (out) m |= std::ios::out; if (app) m |= std::ios::app; if (trunc) m |= std::ios::trunc; if (R.chance(1, 2)) m |= std::ios::binary; bool th = false; bool w = isOpen[k]; L.about("open"); int lv = level; if (lv > 1 && !R.chance(1, 4)) lv = 0;
		{ Arm A(lv > 1 ? 2 : 0); try { if (out && trunc && !in && !app && R.chance(1, 2)) f[k]->openW(n); else if (in && !out && !app && !trunc && R.chance(1, 2)) f[k]->openR(n); else if (!w && R.chance(1, 4)) { cybozu::File *g = new cybozu::File(n, m); delete f[k]; f[k] = g; } else f[k]->open(n, m); } catch (std::exception&) { th = true; } }
		if (!th) isOpen[k] = true, on[k] = n; L.ev(J("open").n("k", k).str("f", n).b("in", in).b("out", out).b("app", app).b("trunc", trunc).b("hard", sys.hard).b("thrown", th)); if (R.chance(1, 3)) L.ev(J("isopen").n("k", k).b("r", f[k]->isOpen()));
	}
	void adopt(int k, const char *n) { if (isOpen[k]) return; raw[k] = ::open(n, O_RDWR | O_CREAT, 0644); delete f[k]; f[k] = new cybozu::File(raw[k]); isOpen[k] = true; on[k] = n; L.ev(J("adopt").n("k", k).str("f", n)); }
	void write(int k, const S& d) { bool th = false; char *p = (char*)malloc(d.size() + 1); memcpy(p + 1, d.data(), d.size()); L.about("write"); { Arm A(level); try { f[k]->write(p + 1, d.size()); } catch (std::exception&) { th = true; } } free(p); L.ev(J("write").n("k", k).bytes("data", d).b("hard", sys.hard).b("thrown", th)); }
	void rd(int k, size_t n, bool x) { bool th = false; char *p = (char*)malloc(n + 1); size_t r = n; L.about(x ? "read" : "readSome"); { Arm A(level); try { if (x) f[k]->read(p, n); else r = f[k]->readSome(p, n); } catch (std::exception&) { th = true; } } L.ev(J(x ? "read" : "some").n("k", k).n("n", n).bytes("r", S(p, th ? 0 : r <= n ? r : 0)).b("hard", sys.hard).b("thrown", th)); free(p); }
	void seek(int k, int dir, int to) { bool th = false; L.about("seek"); try { f[k]->seek(to, dir == 0 ? std::ios::beg : dir == 1 ? std::ios::cur : std::ios::end); } catch (std::exception&) { th = true; } L.ev(J("seek").n("k", k).n("dir", dir).n("to", to).b("thrown", th)); }
	void size(int k) { bool th = false; uint64_t r = 0; try { r = f[k]->getSize(); } catch (std::exception&) { th = true; } L.ev(J("size").n("k", k).n("r", th ? 0 : (int64_t)r).b("thrown", th)); }
	void sync(int k) { bool th = false; L.about("sync"); { Arm A(level > 1 ? 2 : 0); try { if (R.chance(1, 2)) f[k]->sync(); else f[k]->sync(R.chance(1, 2)); } catch (std::exception&) { th = true; } } L.ev(J("sync").n("k", k).b("hard", sys.hard).b("synced", sys.synced).b("thrown", th)); }
	void close(int k) { bool th = false; L.about("close"); { Arm A(level > 1 ? 2 : 0); try { f[k]->close(); } catch (std::exception&) { th = true; } } isOpen[k] = false; raw[k] = -1; L.ev(J("close").n("k", k).b("hard", sys.hard).b("thrown", th)); }
	void del(int k, bool again = true) { if (raw[k] >= 0 && isOpen[k]) leftover.push_back(raw[k]); L.about("destroy"); { Arm A(level > 1 ? 2 : 0); delete f[k]; } L.ev(J("del").n("k", k).b("hard", sys.hard).b("synced", sys.synced)); if (again) f[k] = new cybozu::File; isOpen[k] = false; raw[k] = -1; }
	bool used(const char *n) { for (int k = 1; k <= 3; k++) if (isOpen[k] && on[k][0] == n[0]) return true; return false; }
	void misc(const char *n) {
		bool th = false; switch (R.below(6)) {
		case 0: case 1: { S d; uint64_t sz = 0; sysFail = R.chance(1, 5); L.about("mmap"); bool hard = false; try { sys.q.clear(); sys.hard = false; sys.armed = true; cybozu::Mmap m(n); sys.armed = false; sz = m.size(); if (sz > 0) d.assign(m.get(), sz); } catch (std::exception&) { th = true; } sys.armed = false; hard = sys.hard; sysFail = false; L.ev(J("mmap").str("f", n).bytes("d", d).n("size", sz).b("hard", hard).b("thrown", th)); } break;
		case 2: { uint64_t r = 0; try { r = cybozu::GetFileSize(n); } catch (std::exception&) { th = true; } L.ev(J("fsize").str("f", n).n("r", r).b("thrown", th)); } break;
		case 3: L.ev(J("exist").str("f", n).b("r", cybozu::DoesFileExist(R.chance(1, 3) ? S("./") + n + "/" : S(n)))); break;
		case 4: { const char *to = n[0] == 'a' ? "b" : "a"; if (used(to)) break; try { cybozu::RenameFile(n, to); } catch (std::exception&) { th = true; } if (!th) for (int k = 1; k <= 3; k++) if (isOpen[k] && on[k][0] == n[0]) on[k] = to; L.ev(J("rename").str("f", n).str("to", to).b("thrown", th)); } break;
		default: if (used(n)) break; try { cybozu::RemoveFile(n); } catch (std::exception&) { th = true; } L.ev(J("remove").str("f", n).b("thrown", th));
		}
	}
};
void random(Log& L, int level, int len) {
	Se s(L, level);
	while (len--) { int k = 1 + R.below(3); const char *n = R.chance(3, 4) ? "a" : "b"; int c = R.below(24);
		if (!s.isOpen[k] && R.chance(1, 2)) c = R.below(5);
		switch (c) {
		case 0: case 1: { int m = R.below(5); s.open(k, n, m == 0, m != 0, m == 1 || m == 2, m == 3); } break;
		case 2: s.open(k, n, R.below(2), R.below(2), R.below(2), R.below(2)); break; case 3: if (R.chance(1, 2)) s.adopt(k, n); break;
		case 4: case 5: case 6: case 7: s.write(k, rnd(R.chance(1, 8) ? R.below(200) : R.below(12))); break;
		case 8: case 9: case 10: s.rd(k, R.below(R.chance(1, 6) ? 200 : 14), true); break; case 11: case 12: case 13: s.rd(k, R.below(R.chance(1, 6) ? 200 : 14), false); break;
		case 14: case 15: s.seek(k, R.below(3), R.range(-4, 12)); break; case 16: s.seek(k, 0, 0); break; case 17: s.size(k); break; case 18: s.sync(k); break; case 19: s.close(k); break; case 20: if (R.chance(1, 2)) s.del(k); break; case 21: s.end(); break; default: s.misc(n); }
	}
}
// large files: many partial system calls in one operation, offsets beyond 32 bits
void bigAll(Log& L, const Args& a) { std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 4200000 : 600000); for (size_t q = 0; q < z.size(); q++) { size_t n = z[q]; L.start(); L.about("big"); S d = bigData(n, R.u64()), r(n, 0); unlink("a"); bool ok = true; size_t m = 0; try { { cybozu::File f; f.openW("a"); Arm A(R.below(2)); f.write(d.data(), n / 3); f.write(d.data() + n / 3, n - n / 3); f.close(); } { cybozu::File f; f.openR("a"); m = f.getSize(); Arm A(R.below(2)); f.read(&r[0], n); char c; if (f.readSome(&c, 1) != 0) ok = false; } } catch (std::exception&) { ok = false; } bigEvent(L, "file", n, m, ok && r == d && cybozu::GetFileSize("a") == n); try { cybozu::Mmap p("a"); bigEvent(L, "mmap", n, p.size(), memcmp(p.get(), d.data(), n) == 0); } catch (std::exception&) { bigEvent(L, "mmap", n, n, false); }
	ok = true; m = 0; size_t g = 0; r.assign(n, 0); try { cybozu::File f; f.openR("a"); for (;;) { Arm A(1); size_t k = f.readSome(&r[g], R.chance(1, 2) ? n - g + 0 : 1 + R.below(n - g + 1)); if (k == 0) break; g += k; if (g >= n) break; } } catch (std::exception&) { ok = false; } bigEvent(L, "some", n, g, ok && r == d);
	static const int64_t far[] = { 65536, 0x7fffffffll, 0x80000000ll, 0xffffffffll, 0x100000000ll, 0x123456789all }; int64_t o = far[q % 6]; ok = true; int64_t sz = 0; S back(5, 0); try { { cybozu::File f; f.openW("b"); f.seek(o, std::ios::beg); f.write("hello", 5); f.seek(-5, std::ios::cur); f.seek(-(o / 2), std::ios::cur); f.write("x", 1); sz = f.getSize(); } { cybozu::File f; f.openR("b"); f.seek(-5, std::ios::end); f.read(&back[0], 5); char c = 0; f.seek(o - o / 2, std::ios::beg); f.read(&c, 1); if (c != 'x') ok = false; } if (cybozu::GetFileSize("b") != (uint64_t)sz) ok = false; } catch (std::exception&) { ok = false; } bigEvent(L, "far", (size_t)((o + 5) / 1000), (size_t)(sz / 1000), ok && sz == o + 5 && back == "hello"); unlink("b"); unlink("a"); L.end(); } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out, 20); { char d[32]; snprintf(d, sizeof(d), "s%d", (int)getpid()); if (mkdir(d, 0755) || chdir(d)) return 2; }
	if (!freopen("/dev/null", "w", stderr)) return 2;
	std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i) && (a.effort > 1 || R.chance(1, 6))) { Se s(L, R.below(3)); for (size_t j = 0; j < sc[i].size(); j++) { int c = sc[i][j]; switch (c) { case 1: case 2: case 3: case 4: case 5: case 6: { int k = c > 3 ? 2 : 1, m = (c - 1) % 3; s.open(k, "a", m == 0, m > 0, m == 2, m == 1 && R.chance(1, 2)); } break; case 7: s.write(1, rnd(1)); break; case 8: s.write(1, rnd(2 + R.below(7))); break; case 9: s.write(2, rnd(2 + R.below(7))); break; case 10: s.rd(1, 2 + R.below(4), R.chance(2, 3)); break; case 11: s.rd(2, 1, R.chance(1, 2)); break; case 12: s.seek(1, R.below(3), 1); break; case 13: s.seek(2, R.below(3), 3); break; default: if (R.chance(1, 2)) s.close(c - 13); else s.del(c - 13); } } }
	for (int i = 0; i < 250 * a.effort; i++) random(L, R.below(3), 4 + R.below(24));
	bigAll(L, a);
	for (size_t i = 0; i < 7; i++) if (a.mine(i)) for (int k = 0; k < 3; k++) { L.start(); L.about("vast"); S d("v"); { cybozu::File f; f.openW("v"); f.write("x", 1); f.close(); Vast v(Vast::size(i), Vast::part(k)); bool ok = true; f.open("v", std::ios::out | std::ios::app); try { sys.armed = true; sys.q.clear(); f.write(v.p, v.n); } catch (std::exception&) { ok = false; } sys.armed = false; vastEvent(L, "write", v, ok); f.close(); f.openR("v"); v.done = 0; ok = true; try { sys.armed = true; f.read(v.p, v.n); } catch (std::exception&) { ok = false; } sys.armed = false; vastEvent(L, "read", v, ok); } unlink("v"); L.end(); }
	unlink("a"); unlink("b"); return 0;
}
