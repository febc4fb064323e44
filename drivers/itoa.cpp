// P12: integer to text
#include <assert.h>
#include <cybozu/itoa.hpp>
#include <cybozu/atoi.hpp>
#include <type_traits>
#include "verif.hpp"
using namespace verif;
static Rng *gR;
#define R (*gR)
template<class T> J& val(J& j, T v) { bool neg = v < 0; uint64_t a = neg ? 0 - (uint64_t)(int64_t)v : (uint64_t)v; return j.b("neg", neg).limbs("abs", a); }
template<class T> void dec(Log& L, T v) { // itoa overloads
	L.about("itoa"); std::string t = "junk"; if (R.chance(1, 2)) cybozu::itoa(t, v); else t = cybozu::itoa(v);
	J j("dec"); val(j, v); L.ev(j.bytes("t", t));
	bool ok; T w = cybozu::atoi(&ok, t); L.ev(J("back").b("ok", ok && w == v));
	size_t n = R.below(26); char c = R.chance(3, 4) ? '0' : '*'; std::string z = c == '0' && R.chance(1, 2) ? cybozu::itoaWithZero(v, n) : cybozu::itoaWithZero(v, n, c);
	J k("decz"); val(k, v); L.ev(k.n("n", n).n("c", c).bytes("t", z));
}
static bool once = true;
template<class F> size_t guarded(Log& L, J j, size_t n, F f) { // f(buf, n) returns written size
	if (once) { once = false; size_t w = guarded(L, j, 70, f); if (w > 0 && w < 70) for (size_t k = w - 1; k <= w + 1; k++) guarded(L, j, k, f); once = true; } // every value with the buffer that just fits
	size_t off = R.below(9); std::string b(n + 24, '\xa5'); char *p = &b[off]; size_t w = f(p, n); bool g = true; for (size_t i = 0; i < b.size(); i++) if ((i < off || i >= off + n) && b[i] != '\xa5') g = false;
	if (w > n) g = false; L.ev(j.n("n", n).n("w", w).b("guard", g).bytes("t", g ? std::string(p + n - w, w) : std::string())); return w;
}
template<class T> __attribute__((noinline)) size_t callIntToDec(char *p, size_t n, T v) { return cybozu::itoa_local::intToDec(p, n, v); }
template<class T> void bufSigned(Log& L, T v) { L.about("intToDec"); J j("buf"); j.n("base", 10).b("up", true); val(j, v); guarded(L, j, R.chance(1, 2) ? 20 + R.below(3) : R.below(23), [&](char *p, size_t n) { return callIntToDec(p, n, v); }); }
template<class T> void bufUnsigned(Log& L, T v) {
	using namespace cybozu::itoa_local; L.about("uintTo");
	{ J j("buf"); j.n("base", 10).b("up", true); val(j, v); guarded(L, j, R.below(23), [&](char *p, size_t n) { return uintToDec(p, n, v); }); }
	{ bool up = R.chance(1, 2); J j("buf"); j.n("base", 16).b("up", up); val(j, v); guarded(L, j, R.below(19), [&](char *p, size_t n) { return uintToHex(p, n, v, up); }); }
	{ J j("buf"); j.n("base", 2).b("up", true); val(j, v); guarded(L, j, R.below(68), [&](char *p, size_t n) { return uintToBin(p, n, v); }); }
}
template<class T> void pow2(Log& L, T v) {
	bool up = R.chance(1, 2), wz = R.chance(1, 2); L.about("itohex"); std::string t = "junk";
	switch (R.below(3)) { case 0: cybozu::itohex(t, v, up, wz); break; case 1: t = cybozu::itohex(v, up, wz); break; default: up = wz = true; if (R.chance(1, 2)) t = cybozu::itohex(v); else cybozu::itohex(t, v); }
	{ J j("pow2"); val(j, v); L.ev(j.n("base", 16).n("bits", sizeof(T) * 8).b("up", up).b("withZero", wz).bytes("t", t)); }
	bool ok; T w = cybozu::hextoi(&ok, t); L.ev(J("back").b("ok", ok && w == v));
	L.about("itobin"); wz = R.chance(1, 2); t = "junk"; if (R.chance(1, 2)) cybozu::itobin(t, v, wz); else t = cybozu::itobin(v, wz);
	{ J j("pow2"); val(j, v); L.ev(j.n("base", 2).n("bits", sizeof(T) * 8).b("up", true).b("withZero", wz).bytes("t", t)); }
	{ size_t len = cybozu::getHexLength(v); J j("fixed"); j.n("base", 16).b("up", up).n("len", len); val(j, v); if (len <= 40) guarded(L, j, len + R.below(4), [&](char *p, size_t n) { cybozu::itohex(p, n, v, up); return n; }); }
	{ size_t len = cybozu::getBinLength(v); J j("fixed"); j.n("base", 2).b("up", true).n("len", len); val(j, v); if (len <= 80) guarded(L, j, len + R.below(4), [&](char *p, size_t n) { cybozu::itobin(p, n, v); return n; }); }
}
void all(Log& L, uint64_t v) {
	L.start();
	dec<int>(L, (int)v); dec<unsigned>(L, (unsigned)v); dec<long>(L, (long)v); dec<unsigned long>(L, v); dec<long long>(L, (long long)v); dec<unsigned long long>(L, v);
	bufSigned<signed char>(L, (signed char)v); bufSigned<short>(L, (short)v); bufSigned<int>(L, (int)v); bufSigned<long>(L, (long)v); bufSigned<long long>(L, (long long)v);
	switch (R.below(5)) { case 0: bufUnsigned<uint8_t>(L, (uint8_t)v); break; case 1: bufUnsigned<uint16_t>(L, (uint16_t)v); break; case 2: bufUnsigned<uint32_t>(L, (uint32_t)v); break; default: bufUnsigned<uint64_t>(L, v); }
	switch (R.below(3)) { case 0: pow2<unsigned char>(L, (unsigned char)v); break; case 1: pow2<unsigned short>(L, (unsigned short)v); break; default: pow2<unsigned int>(L, (unsigned int)v); } pow2<unsigned long>(L, v); pow2<unsigned long long>(L, v);
	L.end();
}
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out);
	std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) all(L, (uint64_t)sc[i][0] | ((uint64_t)sc[i][1] << 16) | ((uint64_t)sc[i][2] << 32) | ((uint64_t)sc[i][3] << 48));
	for (uint64_t v = 0; v < 256; v++) if (a.mine(v)) all(L, v);
	for (int b = 7; b < 64; b = b * 2 + 1) for (int d = -1; d <= 1; d++) if (a.mine(b + d)) { all(L, ((uint64_t)1 << b) + d); all(L, 0 - (((uint64_t)1 << b) + d)); }
	uint64_t p = 1; for (int i = 0; i < 20; i++) { for (int d = -1; d <= 1; d++) if (a.mine(i)) { all(L, p + d); all(L, 0 - (p + d)); } p *= 10; }
	for (int i = 0; i < 150 * a.effort; i++) all(L, R.u64() >> R.below(64));
	return 0;
}
