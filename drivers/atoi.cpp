// P11: text to integer
#include <cybozu/atoi.hpp>
#include <type_traits>
#include "verif.hpp"
using namespace verif;
static Rng *gR;
#define R (*gR)
struct Buf { char *p; Buf(const std::string& s, bool nul) : p((char*)malloc(s.size() + (nul ? 1 : 0) + 0)) { if (s.size()) memcpy(p, s.data(), s.size()); if (nul) p[s.size()] = 0; } ~Buf() { free(p); } };
template<class C, class T> void parse(Log& L, const std::string& t, int base) {
	int mode = R.below(6); bool ok = true; T v = T(0x55); bool flag = mode % 2 == 0;
	L.about("parse " + t);
	if (t.find('\0') != std::string::npos && mode >= 4) mode -= 2;
	try { switch (mode) {
		case 0: { Buf b(t, false); v = C(&ok, b.p, t.size()); break; }
		case 1: { Buf b(t, false); v = C(b.p, t.size()); break; }
		case 2: v = C(&ok, t); break;
		case 3: v = C(t); break;
		case 4: { Buf b(t, true); v = C(&ok, b.p); break; }
		default: { Buf b(t, true); v = C(b.p); break; } }
	} catch (cybozu::Exception&) { ok = false; v = 0; }
	bool neg = v < 0; uint64_t a = neg ? 0 - (uint64_t)(int64_t)v : (uint64_t)v;
	L.ev(J("parse").n("base", base).n("bits", sizeof(T) * 8).b("s", std::is_signed<T>::value).b("flag", flag).bytes("text", t).b("ok", ok).b("neg", neg).limbs("abs", a));
}
void parseDec(Log& L, const std::string& t, int k) {
	typedef cybozu::atoi A;
	switch (k) { case 0: parse<A, signed char>(L, t, 10); break; case 1: parse<A, unsigned char>(L, t, 10); break; case 2: parse<A, short>(L, t, 10); break; case 3: parse<A, unsigned short>(L, t, 10); break; case 4: parse<A, int>(L, t, 10); break; case 5: parse<A, unsigned int>(L, t, 10); break; case 6: parse<A, long>(L, t, 10); break; case 7: parse<A, unsigned long>(L, t, 10); break; case 8: parse<A, long long>(L, t, 10); break; default: parse<A, unsigned long long>(L, t, 10); }
}
void parseHex(Log& L, const std::string& t, int k) {
	typedef cybozu::hextoi A;
	switch (k) { case 0: parse<A, signed char>(L, t, 16); break; case 1: parse<A, unsigned char>(L, t, 16); break; case 2: parse<A, short>(L, t, 16); break; case 3: parse<A, unsigned short>(L, t, 16); break; case 4: parse<A, int>(L, t, 16); break; case 5: parse<A, unsigned int>(L, t, 16); break; case 6: parse<A, long>(L, t, 16); break; case 7: parse<A, unsigned long>(L, t, 16); break; case 8: parse<A, long long>(L, t, 16); break; case 9: parse<A, unsigned long long>(L, t, 16); break; default: parse<A, char>(L, t, 16); }
}
static const char *mx[] = { "127", "255", "32767", "65535", "2147483647", "4294967295", "9223372036854775807", "18446744073709551615", "9223372036854775807", "18446744073709551615" };
std::string mutate(std::string s) {
	int m = R.below(3); while (m--) switch (R.below(9)) {
	case 0: if (!s.empty()) s[R.below(s.size())] = "0123456789-+ xaAfFgG@`/:"[R.below(24)]; break;
	case 1: s.insert(R.below(s.size() + 1), 1, "0123456789-"[R.below(11)]); break;
	case 2: if (!s.empty()) s.erase(R.below(s.size()), 1); break;
	case 3: s += "0123456789x \n"[R.below(13)]; break;
	case 4: s.insert((s[0] == '-') ? 1 : 0, 1 + R.below(R.chance(1, 5) ? 40 : 3), '0'); break;
	case 5: s = "-" + s; break;
	case 6: if (!s.empty()) { char& c = s[s.size() - 1]; c = char(c + R.range(-1, 1)); } break;
	case 7: s.insert(R.below(s.size() + 1), 1, char(R.chance(1, 3) ? 0 : R.u64())); break;
	default: if (!s.empty()) { char& c = s[R.below(s.size())]; c = char(c + R.range(-1, 1)); } }
	return s;
}
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out);
	std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) {
		std::string t; for (int k = 0; k < sc[i][0]; k++) t += (char)sc[i][1 + k];
		L.start(); int k = R.below(10); parseDec(L, t, R.below(2)); parseDec(L, t, k);
		// the same text behind the leading digits of the limit of a type
		std::string u = t, lim(mx[k]); size_t at = (!t.empty() && t[0] == '-') ? 1 : 0; lim.resize(lim.size() - (k < 2 ? 1 : 2 - R.below(2))); u.insert(at, lim); parseDec(L, u, k);
		std::string h = t; for (size_t j = 0; j < h.size(); j++) { static const char m[] = "f078f7F8"; if (h[j] >= '1' && h[j] <= '8') h[j] = m[h[j] - '1']; } parseHex(L, h, R.below(11)); parseHex(L, std::string(2 * R.below(8), 'f') + h, R.below(11)); parseHex(L, "7" + std::string(R.below(15), 'f') + h, R.below(11));
		L.end();
	}
	for (int i = 0; i < 600 * a.effort; i++) {
		L.start();
		for (int j = 0; j < 6; j++) { int k = R.below(10), src = R.chance(3, 4) ? k : (int)R.below(10); std::string s = mx[src]; if (R.chance(1, 2)) { s[s.size() - 1] += 1; } if (R.chance(1, 3)) s = "-" + s; if (R.chance(1, 5)) s.resize(R.below(s.size() + 1)); parseDec(L, mutate(s), k); }
		for (int j = 0; j < 5; j++) { int k = R.below(11); size_t n = (k == 10 ? 1 : k < 6 ? size_t(1) << (k / 2) : 8) * 2; std::string s(n, 'f'); if (R.chance(1, 2)) s[0] = "78fF01"[R.below(6)]; for (size_t q = 1; q < n; q++) if (R.chance(1, 4)) s[q] = "0123456789abcdefABCDEF"[R.below(22)]; if (R.chance(1, 5)) s.resize(R.below(n + 1)); parseHex(L, mutate(s), k); }
		L.end();
	}
	return 0;
}
