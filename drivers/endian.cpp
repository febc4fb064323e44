// P13: byte order and bit primitives
#include <cybozu/endian.hpp>
#include <cybozu/bit_operation.hpp>
#include "verif.hpp"
using namespace verif;
static Rng *gR;
#define R (*gR)
template<class T> struct O;
template<> struct O<uint16_t> { static void set(bool be, void *p, uint16_t v) { be ? cybozu::Set16bitAsBE(p, v) : cybozu::Set16bitAsLE(p, v); } static uint16_t get(bool be, const void *p) { return be ? cybozu::Get16bitAsBE(p) : cybozu::Get16bitAsLE(p); } };
template<> struct O<uint32_t> { static void set(bool be, void *p, uint32_t v) { be ? cybozu::Set32bitAsBE(p, v) : cybozu::Set32bitAsLE(p, v); } static uint32_t get(bool be, const void *p) { return be ? cybozu::Get32bitAsBE(p) : cybozu::Get32bitAsLE(p); } };
template<> struct O<uint64_t> { static void set(bool be, void *p, uint64_t v) { be ? cybozu::Set64bitAsBE(p, v) : cybozu::Set64bitAsLE(p, v); } static uint64_t get(bool be, const void *p) { return be ? cybozu::Get64bitAsBE(p) : cybozu::Get64bitAsLE(p); } };
template<class T> void order(Log& L, T v) {
	const int nl = sizeof(T) / 2; L.about("endian");
	for (int be = 0; be < 2; be++) {
		uint8_t m[24], o[24]; for (int i = 0; i < 24; i++) m[i] = o[i] = uint8_t(R.u64()); size_t off = R.below(16);
		O<T>::set(be, m + off, v); L.ev(J("set").b("be", be).n("off", off).limbs("w", v, nl).bytes("before", o, 24).bytes("after", m, 24));
		uint8_t *h = (uint8_t*)malloc(sizeof(T)); memcpy(h, m + off, sizeof(T)); if (R.chance(1, 2)) for (size_t i = 0; i < sizeof(T); i++) h[i] = uint8_t(R.u64()); T g = O<T>::get(be, h); L.ev(J("get").b("be", be).limbs("w", g, nl).bytes("bytes", h, sizeof(T))); free(h);
		T g2 = O<T>::get(be, o + off); L.ev(J("get").b("be", be).limbs("w", g2, nl).bytes("bytes", o + off, sizeof(T)));
	}
	L.ev(J("swap").limbs("w", v, nl).limbs("r", cybozu::byteSwap(v), nl));
}
template<class T> void scan(Log& L, T v) { if (v == 0) return; const int nl = sizeof(T) / 2 + (sizeof(T) == 1); L.about("scan"); L.ev(J("bsf").limbs("w", v, nl).n("r", cybozu::bsf(v))); L.ev(J("bsr").limbs("w", v, nl).n("r", cybozu::bsr(v))); }
void all(Log& L, uint64_t v) {
	L.start(); order<uint16_t>(L, (uint16_t)v); order<uint32_t>(L, (uint32_t)v); order<uint64_t>(L, v);
	scan<uint8_t>(L, (uint8_t)v); scan<uint16_t>(L, (uint16_t)v); scan<uint32_t>(L, (uint32_t)v); scan<uint64_t>(L, v); scan<unsigned long long>(L, v);
	L.ev(J("popcnt").limbs("w", (uint32_t)v, 2).n("r", cybozu::popcnt<uint32_t>((uint32_t)v))); L.ev(J("popcnt").limbs("w", v).n("r", cybozu::popcnt<uint64_t>(v)));
	L.end();
}
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out);
	std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) all(L, (uint64_t)sc[i][0] | ((uint64_t)sc[i][1] << 16) | ((uint64_t)sc[i][2] << 32) | ((uint64_t)sc[i][3] << 48));
	for (int i = 0; i < 64; i++) { L.start(); L.about("mask"); L.ev(J("mask").n("n", i).limbs("r", R.chance(1, 2) ? cybozu::makeBitMask64(i) : cybozu::makeBitMask64(uint64_t(i)))); L.end(); }
	for (int i = 0; i < 200 * a.effort; i++) all(L, R.chance(1, 3) ? 0x8040201008040201ULL * R.below(256) : R.u64() >> R.below(64));
	return 0;
}
