// P17: UTF-8 / UTF-16
#include <string.h>
#include <iostream>
#include <sstream>
#include <list>
#include <cybozu/string.hpp>
#include "verif.hpp"
using namespace verif;
typedef std::string S; typedef cybozu::Char C; typedef cybozu::Char16 C16; typedef cybozu::String16 S16; typedef cybozu::String US;
static Rng *gR;
#define R (*gR)
template<class T> struct Buf { T *p; size_t n; Buf(const T *q, size_t n_) : p((T*)malloc(n_ ? n_ * sizeof(T) : 1)), n(n_) { if (n) memcpy(p, q, n * sizeof(T)); } ~Buf() { free(p); } };
void one(Log& L, int64_t cc) {
	C c = C(cc); L.about("char"); char o[8]; C16 u[4]; int n = cybozu::string::toUtf8(o, c), m = cybozu::string::toUtf16(u, c); S a; S16 b; bool x = cybozu::string::AppendUtf8(a, c), y = cybozu::string::AppendUtf16(b, c);
	if (x != (n > 0) || a != S(o, n)) n = 0, a = "?"; if (y != (m > 0)) m = 0;
	L.ev(J("char").n("c", cc).b("valid", cybozu::string::IsValidChar(c)).n("size", cybozu::string::GetCharSize(c)).bytes("u8", a).nums("u16", std::vector<int>(b.begin(), b.end())));
}
template<class It> void dec8it(std::vector<int>& v, bool& ok, It b, It e) { ok = true; while (b != e) { C c; if (!cybozu::string::GetCharFromUtf8(&c, b, e)) { ok = false; break; } v.push_back(c); } }
void u8(Log& L, const S& s, int how) {
	Buf<char> B(s.data(), s.size()); const char *p = B.p, *e = p + s.size(); bool ok = true; std::vector<int> v; L.about("dec8 " + jbytes(s));
	switch (how % 8) {
	case 0: { dec8it(v, ok, p, e); L.ev(J("dec8").bytes("s", s).b("ok", ok).nums("v", v)); break; }
	case 1: { std::list<char> l(s.begin(), s.end()); dec8it(v, ok, l.begin(), l.end()); L.ev(J("dec8").bytes("s", s).b("ok", ok).nums("v", v)); break; }
	case 2: { try { cybozu::Utf8refT<const char*> r(p, e); C c; while (r.next(&c)) v.push_back(c); } catch (std::exception&) { ok = false; } L.ev(J("dec8").bytes("s", s).b("ok", ok).nums("v", v)); break; }
	case 3: { US x("zz"); try { if (R.chance(1, 2)) x = s; else { x = US(p, s.size()); } } catch (std::exception&) { ok = false; } L.ev(J("str8").bytes("s", s).b("ok", ok).nums("v", std::vector<int>(x.begin(), x.end()))); break; }
	case 4: { US x; try { x.append(p, e); } catch (std::exception&) { ok = false; } L.ev(J("str8").bytes("s", s).b("ok", ok).nums("v", std::vector<int>(x.begin(), x.end()))); break; }
	case 5: { S16 o; o.push_back(7); ok = cybozu::ConvertUtf8ToUtf16(&o, p, e); L.ev(J("conv8").bytes("s", s).b("ok", ok).nums("v", std::vector<int>(o.begin(), o.end()))); break; }
	case 6: { S16 o; try { o = cybozu::ToUtf16(s); } catch (std::exception&) { ok = false; } L.ev(J("conv8").bytes("s", s).b("ok", ok).nums("v", std::vector<int>(o.begin(), o.end()))); break; }
	case 7: if (s.find('\n') != S::npos || s.empty()) break; { std::istringstream is(s); US x; try { cybozu::getline(is, x); } catch (std::exception&) { ok = false; } L.ev(J("str8").bytes("s", s).b("ok", ok).nums("v", std::vector<int>(x.begin(), x.end()))); break; }
	}
}
void u16(Log& L, const S16& s, int how) {
	Buf<C16> B(s.data(), s.size()); const C16 *p = B.p, *e = p + s.size(); bool ok = true; std::vector<int> v, in(s.begin(), s.end()); L.about("dec16");
	switch (how % 4) {
	case 0: { while (p != e) { C c; if (!cybozu::string::GetCharFromUtf16(c, p, e)) { ok = false; break; } v.push_back(c); } L.ev(J("dec16").nums("s", in).b("ok", ok).nums("v", v)); break; }
	case 1: { US x; try { if (R.chance(1, 2)) x.append(p, e); else x = US(s); } catch (std::exception&) { ok = false; } L.ev(J("str16").nums("s", in).b("ok", ok).nums("v", std::vector<int>(x.begin(), x.end()))); break; }
	case 2: { S o = "x"; ok = cybozu::ConvertUtf16ToUtf8(&o, p, e); L.ev(J("conv16").nums("s", in).b("ok", ok).bytes("v", o)); break; }
	case 3: { S o; try { o = cybozu::ToUtf8(s); } catch (std::exception&) { ok = false; } L.ev(J("conv16").nums("s", in).b("ok", ok).bytes("v", o)); break; }
	}
}
void enc(Log& L, const std::vector<int>& v) {
	std::vector<C> t(v.begin(), v.end()); US x(t.begin(), t.end()); S a; S16 b; bool o8 = true, o16 = true; L.about("enc");
	try { if (R.chance(1, 4)) { std::ostringstream os; os << x; a = os.str(); } else a = x.toUtf8(); } catch (std::exception&) { o8 = false; } try { b = x.toUtf16(); } catch (std::exception&) { o16 = false; }
	L.ev(J("enc").nums("s", v).b("valid", x.isValid()).b("ok8", o8).b("ok16", o16).bytes("u8", a).nums("u16", std::vector<int>(b.begin(), b.end())));
}
int cp() { static const int e[] = { 0, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff, 0x110000 }; switch (R.below(4)) { case 0: return e[R.below(23)]; case 1: return R.below(0x110000); case 2: return R.below(0x3000); default: return R.below(128); } }
int vcp() { for (;;) { int c = cp(); if (c >= 0 && c <= 0x10ffff && (c < 0xd800 || c > 0xdfff)) return c; } }
void bigAll(Log& L, const Args& a) { std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 1100000 : 140000); for (size_t q = 0; q < z.size(); q++) { size_t n = z[q]; L.start(); L.about("big"); S s; S16 t; std::vector<C> v; while (v.size() < n) { int c = vcp(); if (n > 5000 && R.chance(1, 2)) c = 'a'; v.push_back(c); if (c < 0x80) s += char(c); else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); } else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); } else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); } if (c < 0x10000) t.push_back(c); else { t.push_back(0xd800 + ((c - 0x10000) >> 10 & 0x3ff)); t.push_back(0xdc00 + (c & 0x3ff)); } }
	try { US x(v.begin(), v.end()), y(s), w(t); bigEvent(L, "from8", n, y.size(), y == x); bigEvent(L, "from16", n, w.size(), w == x); bigEvent(L, "to8", s.size(), x.toUtf8().size(), x.toUtf8() == s); bigEvent(L, "to16", t.size(), x.toUtf16().size(), x.toUtf16() == t); S16 o; bool ok = cybozu::ConvertUtf8ToUtf16(&o, s.data(), s.data() + s.size()); bigEvent(L, "conv8", t.size(), o.size(), ok && o == t); S p; ok = cybozu::ConvertUtf16ToUtf8(&p, t.data(), t.data() + t.size()); bigEvent(L, "conv16", s.size(), p.size(), ok && p == s); bigEvent(L, "valid", n, n, x.isValid()); S b = s + "\x80"; bool th = false; try { US r(b); } catch (std::exception&) { th = true; } S16 o2; bigEvent(L, "bad", n, n, th && !cybozu::ConvertUtf8ToUtf16(&o2, b.data(), b.data() + b.size())); } catch (std::exception&) { bigEvent(L, "throw", n, n, false); } L.end(); } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out);
	std::vector<std::vector<int> > sc = loadScript(a.script);
	static const int um[] = { 0, 65, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000 }; static const int bm[] = { 0, 65, 127, 128, 143, 144, 159, 160 };
	size_t cnt = 0; L.start();
	#define CUT if (++cnt % 25 == 0) { L.end(); L.start(); }
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { S s; S16 t; for (int k = 0; k < sc[i][0]; k++) { int b = sc[i][1 + k]; s += char(b); int u = 65535 - b; for (int j = 0; j < 8; j++) if (bm[j] == b) u = um[j]; t.push_back(u); } u8(L, s, R.below(8)); if (R.chance(1, 3)) u16(L, t, R.below(4)); CUT }
	static const int B4[] = { 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff }; static const int L4[] = { 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5 };
	size_t idx = 0;
	for (int l = 0; l < 6; l++) for (int x = 0; x < 9; x++) for (int y = 0; y < 9; y++) for (int z = 0; z < 9; z++) if (a.mine(idx++)) { S s; s += char(L4[l]); s += char(B4[x]); s += char(B4[y]); s += char(B4[z]); if (R.chance(1, 3)) s = "a" + s; if (R.chance(1, 3)) s += "b"; u8(L, s, R.below(8)); CUT }
	static const int L3[] = { 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef }, L2[] = { 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0 };
	for (int l = 0; l < 7; l++) for (int x = 0; x < 9; x++) for (int y = 0; y < 9; y++) if (a.mine(idx++)) { S s; s += char(L3[l]); s += char(B4[x]); s += char(B4[y]); if (R.chance(1, 3)) s = "a" + s; if (R.chance(1, 3)) s += "b"; u8(L, s, R.below(8)); CUT }
	for (int l = 0; l < 7; l++) for (int x = 0; x < 9; x++) if (a.mine(idx++)) { S s; s += char(L2[l]); s += char(B4[x]); if (R.chance(1, 3)) s += "b"; u8(L, s, R.below(8)); CUT }
	static const int64_t e[] = { 0, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x1ffff, 0x20000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff, 0x110000, 0x1fffff, 0x200000, 0x7fffff00, -1, -128, -0x70000000 };
	for (size_t i = 0; i < sizeof(e) / sizeof(e[0]); i++) if (a.mine(i)) for (int d = -3; d <= 3; d++) { one(L, e[i] + d); CUT }
	for (int i = 0; i < 1200 * a.effort; i++) { one(L, cp()); CUT }
	for (int i = 0; i < 500 * a.effort; i++) { std::vector<int> v; size_t n = R.below(8); bool bad = R.chance(1, 5); for (size_t k = 0; k < n; k++) v.push_back(bad && R.chance(1, 4) ? cp() : vcp()); enc(L, v);
		S s; S16 t; for (size_t k = 0; k < n; k++) { char o[4]; int m = v[k] > 0x10ffff ? 0 : v[k] < 0x80 ? 1 : v[k] < 0x800 ? 2 : v[k] < 0x10000 ? 3 : 4; // reference encoder, also for surrogates
			int c = v[k]; if (m == 1) s += char(c); else if (m == 2) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); } else if (m == 3) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); } else if (m == 4) { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
			if (c < 0x10000) t.push_back(c); else { t.push_back(0xd800 + ((c - 0x10000) >> 10 & 0x3ff)); t.push_back(0xdc00 + (c & 0x3ff)); } }
		for (int k = 0; k < 3; k++) { S x = s; S16 y = t; if (R.chance(1, 3) && !x.empty()) x.resize(R.below(x.size())); if (R.chance(1, 3) && !y.empty()) y.resize(R.below(y.size())); if (R.chance(1, 4) && !x.empty()) x[R.below(x.size())] = char(R.below(256)); if (R.chance(1, 4) && !y.empty()) y[R.below(y.size())] = um[R.below(8)]; u8(L, x, R.below(8)); u16(L, y, R.below(4)); } CUT }
	L.end(); bigAll(L, a); L.start(); one(L, 65);
	L.end(); return 0;
}
