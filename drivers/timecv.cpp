// P31: time and text
#include <string.h>
#include <math.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>
#include <sstream>
#include <cybozu/time.hpp>
#include "verif.hpp"
using namespace verif; typedef std::string S; typedef cybozu::Time T;
static Rng *gR;
#define R (*gR)
T mk(int n, int s, int m) { time_t t = (time_t)n * 86400 + s; if (R.chance(1, 2)) return T(t, m); T x; x.setTime(t, m); return x; }
J base(const char *op, int n, int s, int m) { return J(op).n("n", n).n("s", s).n("m", m); }
void split(const T& t, int& n, int& s) { int64_t v = t.getTime(); int64_t q = v >= 0 ? v / 86400 : -((86399 - v) / 86400); n = (int)q; s = (int)(v - q * 86400); }
static struct timeval fake; static bool faking;
extern "C" int gettimeofday(struct timeval *t, void *) noexcept { if (faking) { *t = fake; return 0; } struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
extern "C" int clock_gettime(clockid_t c, struct timespec *t) noexcept { if (faking) { t->tv_sec = fake.tv_sec; t->tv_nsec = fake.tv_usec * 1000; return 0; } return (int)syscall(SYS_clock_gettime, c, t); }
extern "C" time_t time(time_t *t) noexcept { struct timeval v; gettimeofday(&v, 0); if (t) *t = v.tv_sec; return v.tv_sec; }
struct G { Log& L; G(Log& L_) : L(L_) {}
	void parse(const S& in) { char *p = (char*)malloc(in.size() + 1); char *b = p + 1; memcpy(b, in.data(), in.size()); T t; bool ok = true; L.about("fromString"); bool nul = in.find('\0') != S::npos; int how = R.below(5); try { switch (how) { case 0: t.fromString(b, b + in.size()); break; case 1: ok = R.below(2); t.fromString(&ok, b, b + in.size()); break; case 2: t = T(in); break; case 3: if (!nul) { t = T(in.c_str()); break; } default: ok = R.below(2); t.fromString(&ok, in); } } catch (std::exception&) { ok = false; } free(p); int n = 0, s = 0; if (ok) split(t, n, s); L.ev(J("parse").bytes("t", in).b("ok", ok).n("n", n).n("s", s).n("m", ok ? t.getMsec() : 0)); }
	void now(int n, int s, int m) { fake.tv_sec = (time_t)n * 86400 + s; fake.tv_usec = m * 1000 + R.below(1000); T t(1, 1); double d; int n2, s2; L.about("current time"); faking = true; switch (R.below(3)) { case 0: { T u(true); t = u; } break; case 1: t.setCurrentTime(); break; default: break; } d = cybozu::GetCurrentTimeSec(); T z; faking = false; bool got = t.getTime() != 1; if (!got) t = mk(n, s, m); split(t, n2, s2); int64_t ms = (int64_t)floor(d * 1000 + 0.5), ms2 = (int64_t)floor(t.getTimeSec() * 1000 + 0.5);
		L.ev(base("now", n, s, m).n("n2", n2).n("s2", s2).n("m2", t.getMsec()).n("n3", ms / 86400000).n("s3", ms / 1000 % 86400).n("m3", ms % 1000).n("n4", ms2 / 86400000).n("s4", ms2 / 1000 % 86400).n("m4", ms2 % 1000)); }
	S str(int n, int s, int m) { T t = mk(n, s, m); bool ms = R.chance(2, 3); S o = "xy", pre; L.about("toString"); switch (R.below(4)) { case 0: o = t.toString(ms); break; case 1: t.toString(o, ms); break; case 2: t.toString(o, ms, false); pre = "xy"; break; default: { std::ostringstream os; os << t; o = os.str(); ms = true; } } L.ev(base("str", n, s, m).b("ms", ms).bytes("before", pre).bytes("t", o)); return pre.empty() ? o : t.toString(ms); }
	S fmt(int n, int s, int m) { T t = mk(n, s, m); bool ms = R.chance(1, 2), nm = R.chance(1, 2); char sep = R.chance(1, 2) ? '-' : '/', mid = R.chance(1, 2) ? ' ' : 'T'; char f[64]; snprintf(f, sizeof(f), "%%Y%c%s%c%%d%c%%H:%%M:%%S%s", sep, nm ? "%b" : "%m", sep, mid, ms ? "." : ""); S o; L.about("toString(format)"); t.toString(o, f, ms); L.ev(base("fmt", n, s, m).b("ms", ms).b("name", nm).n("sep", sep).n("mid", mid).bytes("before", "").bytes("t", o)); return o; }
	void all(int n, int s, int m) { S a = str(n, s, m), b = fmt(n, s, m); parse(a); if (R.chance(1, 2)) a += 'Z'; parse(a); parse(b); if (R.chance(1, 4)) parse(b + "Z");
		if (R.chance(1, 3)) now(n, s, m);
		{ T t = mk(n, s, m); uint32_t lo, hi; t.getFILETIME(lo, hi); T u; u.setByFILETIME(lo, hi); L.ev(base("ft", n, s, m).limbs("w", ((uint64_t)hi << 32) | lo).b("back", u == t && u.getMsec() == m && u.getTime() == t.getTime())); }
		{ T t = mk(n, s, m); int x = R.chance(1, 2) ? R.range(-100000, 100000) : R.range(-1800000000, 1800000000); t.addSec(x); int n2, s2; split(t, n2, s2); L.ev(base("add", n, s, m).n("x", x).n("n2", n2).n("s2", s2).b("keep", t.getMsec() == m)); }
		int n2 = R.chance(1, 2) ? n : R.below(900000), s2 = R.chance(1, 2) ? s : R.below(86400), m2 = R.chance(1, 2) ? m : R.below(1000); T t = mk(n, s, m), u = mk(n2, s2, m2); L.ev(J("cmp").n("n1", n).n("s1", s).n("m1", m).n("n2", n2).n("s2", s2).n("m2", m2).b("lt", t < u).b("eq", t == u).b("ne", t != u)); }
	S bad(S t) { static const char *f2[] = { "00", "12", "13", "24", "28", "29", "30", "31", "32", "59", "60", "61", "99", "-0", "+5", " 5", "5 ", "-1" }; switch (R.below(7)) { case 0: t[R.below(t.size())] = (char)R.u64(); break; case 1: { static const char c[] = "-/: TZ.0123456789\0JanFeb"; t[R.below(t.size())] = c[R.below(sizeof(c) - 1)]; } break; case 2: t.resize(R.below(t.size() + 1)); break; case 3: t.insert(R.below(t.size() + 1), 1, "0-:Z "[R.below(5)]); break; case 4: t.erase(R.below(t.size()), 1); break; default: { bool nm = t[5] > '9'; size_t q = nm ? 8 : 7; static const int off[] = { -2, 1, 4, 7, 10 }; int o = off[R.below(5)]; if (nm && o < 0) o = 1; if (R.chance(1, 6)) { static const char *y[] = { "1969", "3000", "3001", "0000", "9999", "1900", "-001", "2100" }; t.replace(0, 4, y[R.below(8)]); } else t.replace(q + o, 2, f2[R.below(18)]); } } return t; }
};
int day() { switch (R.below(6)) { case 0: return R.below(400); case 1: return R.below(2932896); case 2: { int y = R.below(80) * 100 + 2000; if (y > 9999) y = 9900; return (int)((y - 1970) * 365.2425) + R.range(-5, 70); } case 3: { int y = 1970 + R.below(1031); return (int)((y - 1970) * 365.2425) + R.range(55, 63); } default: return R.below(376500); } }
int sod() { switch (R.below(4)) { case 0: return 0; case 1: return 86399; default: return R.below(86400); } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out, 20); setenv("TZ", "Asia/Tokyo", 1); tzset(); G g(L); std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i += 40) { L.start(); for (size_t j = i; j < i + 40 && j < sc.size(); j++) if (a.mine(j)) g.all(sc[j][0], sod(), R.below(1000)); L.end(); }
	for (int i = 0; i < 60 * a.effort; i++) { L.start(); for (int j = 0; j < 25; j++) { int n = day(), s = sod(), m = R.chance(1, 4) ? 0 : R.below(1000); g.all(n, s, m); T t = mk(n % 376500, s, m); S x; t.toString(x, R.chance(1, 2) ? "%Y-%m-%dT%H:%M:%S" : "%Y/%b/%d %H:%M:%S", false); if (R.chance(1, 2)) x += ".123"; if (R.chance(1, 2)) x += "Z"; S y = g.bad(x); g.parse(y); g.parse(g.bad(x)); if (R.chance(1, 4) && y.size() > 20) g.parse(g.bad(y)); } L.end(); }
	return 0;
}
