// P18: cybozu::String
#include <string.h>
#include <iostream>
#include <sstream>
#include <cybozu/string.hpp>
#include "verif.hpp"
using namespace verif;
typedef cybozu::Char C; typedef cybozu::String U; typedef std::vector<C> V;
static Rng *gR;
#define R (*gR)
static const size_t NP = size_t(-1);
static std::string js(const U& u) { return J::arr(u.data(), u.size()); }
static U mk(const V& v) { return v.empty() ? U() : U(&v[0], v.size()); }
static std::string u8(const V& v) { std::string s; for (size_t i = 0; i < v.size(); i++) { int c = v[i]; if (c < 0x80) s += char(c); else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); } else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); } else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); } } return s; }
static cybozu::String16 u16(const V& v) { cybozu::String16 s; for (size_t i = 0; i < v.size(); i++) { unsigned c = v[i]; if (c < 0x10000) s += cybozu::Char16(c); else { s += cybozu::Char16(0xd800 + ((c - 0x10000) >> 10)); s += cybozu::Char16(0xdc00 + (c & 0x3ff)); } } return s; }
struct Src { int k; size_t off, cnt; bool z; V s; C c; }; // k: 0 self 1 other 2 lit 3 rep
static std::string jsrc(const Src& x) { static const char *n[] = { "self", "other", "lit", "rep" }; return J().str("k", n[x.k]).pos("off", x.off).pos("cnt", x.cnt).b("z", x.z).raw("s", J::arr(x.s.empty() ? (const C*)"" : &x.s[0], x.s.size())).n("c", x.c).end(); }
struct T {
	Log& L; U a, b; explicit T(Log& L_) : L(L_) {}
	void edit(const char *k, size_t off, size_t n, const Src& x, int how) {
		char ab[128]; snprintf(ab, sizeof(ab), "%s src %d how %d", k, x.k, how); L.about(ab); bool ok = true; int op = !strcmp(k, "assign") ? 0 : !strcmp(k, "append") ? 1 : !strcmp(k, "insert") ? 2 : !strcmp(k, "erase") ? 3 : !strcmp(k, "replace") ? 4 : 5;
		U lit; const U *p = x.k == 0 ? &a : x.k == 1 ? &b : &lit; if (x.k == 2) lit = mk(x.s); size_t so = x.k < 2 ? x.off : 0, sc = x.k < 2 ? x.cnt : NP; const bool whole = so == 0 && sc == NP, inr = so <= p->size(); size_t m = inr ? std::min(sc, p->size() - so) : 0; const C *cp = inr ? p->c_str() + so : 0;
		V lz = x.s; lz.push_back(0); const C *zp = x.k == 2 ? &lz[0] : cp; Src y = x; bool noZero = true; for (size_t i = 0; i < m; i++) if (p->data()[so + i] == 0) noZero = false; bool zOk = inr && sc >= p->size() - so && (x.k < 2 || noZero);
		try {
			if (op == 3) { if (n == 1 && off + 1 == a.size() && how % 4 == 3) a.pop_back(); else if (off <= a.size() && how % 3 == 1 && n == 1 && off < a.size()) a.erase(a.begin() + off); else if (off <= a.size() && how % 3 == 2) a.erase(a.begin() + off, a.begin() + off + std::min(n, a.size() - off)); else a.erase(off, n); }
			else if (op == 5) { if (x.c == 0) a.resize(n); else a.resize(n, x.c); }
			else if (x.k == 3) {
				if (op == 0) { if (x.cnt == 1 && how % 2) a = x.c; else a.assign(x.cnt, x.c); }
				else if (op == 1) { if (x.cnt == 1 && how % 3 == 1) a += x.c; else if (x.cnt == 1 && how % 3 == 2) a.push_back(x.c); else a.append(x.cnt, x.c); }
				else if (op == 2) { if (off <= a.size() && how % 3 == 1) a.insert(a.begin() + off, x.cnt, x.c); else if (off <= a.size() && x.cnt == 1 && how % 3 == 2) a.insert(a.begin() + off, x.c); else a.insert(off, x.cnt, x.c); }
				else { if (off <= a.size() && how % 2) a.replace(a.begin() + off, a.begin() + off + std::min(n, a.size() - off), x.cnt, x.c); else a.replace(off, n, x.cnt, x.c); }
			} else if (x.z && zOk) { y.z = true; // NUL-terminated pointer
				if (op == 0) { if (how % 2) a = zp; else a.assign(zp); } else if (op == 1) { if (how % 2) a += zp; else a.append(zp); } else if (op == 2) a.insert(off, zp); else if (off <= a.size() && how % 2) a.replace(a.begin() + off, a.begin() + off + std::min(n, a.size() - off), zp); else a.replace(off, n, zp);
			} else { y.z = false; int h = how % 7;
				if (h >= 5 && x.k != 2) h = 0; if ((h == 1 || h == 2 || h == 3) && !inr) h = 0; if (h == 4 && !whole) h = 0; bool nz = true; for (size_t i = 0; i < x.s.size(); i++) if (x.s[i] == 0) nz = false; const bool word = nz && !x.s.empty(); cybozu::String16 w; if (h == 6) w = u16(x.s); const cybozu::Char16 *wp = w.c_str();
				std::string u = h == 5 ? u8(x.s) : std::string(); size_t e = off <= a.size() ? off + std::min(n, a.size() - off) : 0; bool it = off <= a.size();
				switch (op) {
				case 0: if (h == 0) a.assign(*p, so, sc); else if (h == 1) a.assign(cp, m); else if (h == 2) a.assign(cp, cp + m); else if (h == 3) a.assign(p->begin() + so, p->begin() + so + m); else if (h == 4) { if (how & 8) a = *p; else a.assign(*p); } else if (h == 6) { switch (how / 7 % 4) { case 0: a = U(w); break; case 1: if (nz) a.assign(wp); else a = U(w); break; case 2: if (nz) a = U(wp); else a = U(wp, wp + w.size()); break; default: a.clear(); a.append(wp, wp + w.size()); } } else switch (how / 7 % 8) { case 0: a = u; break; case 1: if (nz) a.assign(u.c_str()); else a.assign(u); break; case 2: a.assign(u.c_str(), u.size()); break; case 3: a.assign(u); break; case 4: if (nz) a = u.c_str(); else a = U(u); break; case 5: a = nz ? U(u.c_str()) : U(u.c_str(), u.size()); break; case 6: { std::istringstream is(u + "\nnext"); cybozu::getline(is, a); break; } default: if (word) { std::istringstream is(" " + u + " next"); is >> a; } else a = U(u.begin(), u.end()); } break;
				case 1: if (h == 0) a.append(*p, so, sc); else if (h == 1) a.append(cp, m); else if (h == 2) a.append(cp, cp + m); else if (h == 3) a.append(p->begin() + so, p->begin() + so + m); else if (h == 4) { if (how & 8) a += *p; else a.append(*p); } else if (h == 6) { if (nz && how / 7 % 2) a.append(wp); else if (how / 7 % 3) a.append(wp, wp + w.size()); else a += U(w); } else switch (how / 7 % 4) { case 0: if (nz) a.append(u.c_str()); else a.append(u); break; case 1: a.append(u); break; case 2: a.append(u.c_str(), u.size()); break; default: a.append(u.begin(), u.end()); } break;
				case 2: if (h == 0) a.insert(off, *p, so, sc); else if (h == 1) a.insert(off, cp, m); else if (h == 2 && it) a.insert(a.begin() + off, cp, cp + m); else if (h == 3 && it) a.insert(a.begin() + off, p->begin() + so, p->begin() + so + m); else if (h == 4) a.insert(off, *p); else if (h == 5 && it) a.insert(a.begin() + off, u.begin(), u.end()); else if (h == 6) a.insert(off, U(w)); else a.insert(off, *p, so, sc); break;
				default: if (h == 0) a.replace(off, n, *p, so, sc); else if (h == 1) { if (it && (how & 8)) a.replace(a.begin() + off, a.begin() + e, cp, m); else a.replace(off, n, cp, m); } else if (h == 2 && it) a.replace(a.begin() + off, a.begin() + e, cp, cp + m); else if (h == 3 && it) a.replace(a.begin() + off, a.begin() + e, p->begin() + so, p->begin() + so + m); else if (h == 4) { if (it && (how & 8)) a.replace(a.begin() + off, a.begin() + e, *p); else a.replace(off, n, *p); } else if (h == 5 && it) a.replace(a.begin() + off, a.begin() + e, u.begin(), u.end()); else if (h == 6) a.replace(off, n, U(w)); else a.replace(off, n, *p, so, sc);
				}
			}
		} catch (std::out_of_range&) { ok = false; }
		L.ev(J("edit").str("k", k).pos("off", off).pos("n", n).raw("src", jsrc(y)).b("ok", ok).raw("a", js(a)).n("how", how));
	}
	static std::string seq(U& u) { const U& k = u; V v; switch (R.below(9)) { case 0: return js(u); case 1: v.assign(u.begin(), u.end()); break; case 2: v.assign(k.begin(), k.end()); break; case 3: v.assign(k.cbegin(), k.cend()); break; case 4: v.assign(u.rbegin(), u.rend()); std::reverse(v.begin(), v.end()); break; case 5: v.assign(k.rbegin(), k.rend()); std::reverse(v.begin(), v.end()); break; case 6: v.assign(k.crbegin(), k.crend()); std::reverse(v.begin(), v.end()); break; case 7: v.assign(k.get().begin(), k.get().end()); break; default: { const C *p = k.c_str(); if (p[k.size()] != 0) v.push_back(0); v.insert(v.end(), p, p + k.size()); } } return J::arr(v.empty() ? (const C*)"" : &v[0], v.size()); }
	void both() { if (R.chance(1, 4)) { size_t n = R.below(60); a.reserve(n); if (a.capacity() < n || a.capacity() < a.size()) L.ev(J("crash").str("in", "capacity")); } if (R.chance(1, 6)) a.shrink_to_fit(); U c(a); if (R.chance(1, 2)) { c = a; c = static_cast<const U&>(c); } bool h = std::hash<U>()(c) == std::hash<U>()(a) && boost::hash<U>()(c) == boost::hash<U>()(a); L.ev(J("both").raw("a", seq(c)).raw("b", seq(b)).b("h", h).n("na", R.chance(1, 2) ? a.size() : a.length()).b("empty", a.empty())); }
	V pat() { V v; size_t n = R.below(4); if (a.size() && R.chance(1, 2)) { size_t o = R.below(a.size()); for (size_t i = o; i < a.size() && i < o + n; i++) v.push_back(a[i]); } else for (size_t i = 0; i < n; i++) v.push_back(ch()); return v; }
	static C ch() { if (R.chance(1, 6)) { static const int e[] = { 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x3000, 0xff21, 0xff41 }; return C(e[R.below(17)]); } static const int c[] = { 'a', 'b', 'A', 0x3042, 0x10ffff, 'z', 0x7f, 0x80, 0xe9 }; return R.chance(1, 25) ? 0 : C(c[R.below(R.chance(1, 2) ? 2 : 9)]); }
	size_t offv(size_t n) { switch (R.below(8)) { case 0: return n; case 1: return n + 1 + R.below(3); case 2: return 0; default: return R.below(n + 1); } }
	void query() {
		L.about("query"); V p = pat(); U u = mk(p); std::string jp = js(u); bool nz = true; for (size_t i = 0; i < p.size(); i++) if (!p[i]) nz = false; V z = p; z.push_back(0);
		switch (R.below(8)) {
		case 0: case 1: case 2: { int f = R.below(6); static const char *fn[] = { "find", "rfind", "ffo", "flo", "ffno", "flno" }; size_t o = R.chance(1, 4) ? (f % 2 ? NP : 0) : offv(a.size()), r = 0; int m = R.below(4); if (m == 1 && p.size() != 1) m = 0; if (m == 2 && !nz) m = 0;
#define Q(F) (m == 0 ? a.F(u, o) : m == 1 ? a.F(p[0], o) : m == 2 ? a.F(&z[0], o) : a.F(&z[0], o, p.size()))
			switch (f) { case 0: r = Q(find); break; case 1: r = Q(rfind); break; case 2: r = Q(find_first_of); break; case 3: r = Q(find_last_of); break; case 4: r = Q(find_first_not_of); break; default: r = Q(find_last_not_of); }
			L.ev(J("find").str("f", fn[f]).raw("p", jp).pos("off", o).pos("r", r)); break; }
		case 3: { size_t o = offv(a.size()), n = R.chance(1, 3) ? NP : R.below(5); bool ok = true; int r = 0; try { switch (R.below(4)) { case 0: r = a.compare(o, n, u); break; case 1: r = nz ? a.compare(o, n, &z[0]) : a.compare(o, n, u); break; case 2: r = a.compare(o, n, &z[0], p.size()); break; default: { U w = U("xy"); w += u; w += U("q"); r = a.compare(o, n, w, 2, p.size()); } } } catch (std::out_of_range&) { ok = false; } L.ev(J("cmp").pos("off", o).pos("n", n).raw("p", jp).b("ok", ok).n("r", r < 0 ? -1 : r > 0)); break; }
		case 4: { U w = R.chance(1, 3) ? a : R.chance(1, 2) ? b : u; std::vector<std::string> t; bool q[6] = { a == w, a != w, a < w, a <= w, a > w, a >= w }; bool wz = true; for (size_t i = 0; i < w.size(); i++) if (!w[i]) wz = false; if (wz && R.chance(1, 3)) { const C *x = w.c_str(); bool s[6] = { x == a, x != a, x > a, x >= a, x < a, x <= a }; memcpy(q, s, sizeof(q)); } else if (R.chance(1, 3)) { std::string x = w.toUtf8(); bool s[6] = { x == a, x != a, x > a, x >= a, x < a, x <= a }; memcpy(q, s, sizeof(q)); } else if (R.chance(1, 2)) { U::BasicString x = w.get(); bool s[6] = { x == a, x != a, x > a, x >= a, x < a, x <= a }; memcpy(q, s, sizeof(q)); } else if (wz) { cybozu::String16 x16 = w.toUtf16(); const cybozu::Char16 *x = x16.c_str(); bool s[6] = { x == a, x != a, x > a, x >= a, x < a, x <= a }; if (R.chance(1, 2)) { int c = a.compare(x); bool y[6] = { a == x, a != x, c < 0, c <= 0, c > 0, c >= 0 }; memcpy(s, y, sizeof(s)); } memcpy(q, s, sizeof(q)); } for (int i = 0; i < 6; i++) t.push_back(q[i] ? "true" : "false"); L.ev(J("rel").raw("p", js(w)).raw("r", jlist(t))); break; }
		case 5: { size_t o = offv(a.size()), n = R.chance(1, 3) ? NP : R.below(5); bool ok = true; U r; try { switch (R.below(3)) { case 0: r = a.substr(o, n); break; case 1: r = U(a, o, n); break; default: { std::vector<C> d(a.size() + 1); size_t k = a.copy(&d[0], n == NP ? a.size() : n, o); r = U(&d[0], k); } } } catch (std::out_of_range&) { ok = false; } L.ev(J("sub").pos("off", o).pos("n", n).b("ok", ok).raw("r", js(r))); break; }
		case 6: { size_t i = offv(a.size()); bool ok = true; C r = 0; try { const U& ca = a; r = R.chance(1, 2) ? ca.at(i) : a.at(i); if (i == 0 && R.chance(1, 2)) r = R.chance(1, 2) ? a.front() : ca.front(); else if (i + 1 == a.size() && R.chance(1, 2)) r = R.chance(1, 2) ? a.back() : ca.back(); else if (R.chance(1, 2)) r = a[i]; else if (R.chance(1, 2)) r = *(a.rend() - 1 - i); } catch (std::out_of_range&) { ok = false; } L.ev(J("at").pos("i", i).b("ok", ok).n("r", r)); break; }
		default: { U r = R.chance(1, 2) ? a + u : U(a) + u; if (nz && R.chance(1, 3)) r = a + U(&z[0]); L.ev(J("concat").raw("s", jp).raw("r", js(r))); }
		}
	}
	void mv() { L.about("move"); if (R.chance(1, 2)) a = std::move(b); else { U t(std::move(b)); a.swap(t); } b.clear(); L.ev(J("move").raw("a", js(a)).n("n", b.size())); }
	void sw() { L.about("swap"); if (R.chance(1, 2)) a.swap(b); else { using cybozu::swap; swap(a, b); } L.ev(J("swap").raw("a", js(a)).raw("b", js(b))); }
};
void bigAll(Log& L, const Args& ar) { std::vector<size_t> z = bigSizes(ar, ar.effort > 1 ? 1100000 : 140000); for (size_t q = 0; q < z.size(); q++) { size_t n = z[q]; L.start(); L.about("big"); std::basic_string<char32_t> w, v; U a, b; std::string d = bigData(n, R.u64()); for (size_t i = 0; i < n; i++) { C c = 1 + (unsigned char)d[i] * ((unsigned char)d[i] % 3 ? 1 : 257); if (c >= 0xd800 && c < 0xe000) c = 'x'; w.push_back(c); } { std::vector<C> t(w.begin(), w.end()); a = U(&t[0], n); b = U(t.begin(), t.end()); }
#define SAME(what) { bool e = a.size() == w.size() && a.c_str()[a.size()] == 0; for (size_t i = 0; e && i < w.size(); i++) if ((char32_t)a[i] != w[i]) e = false; bigEvent(L, what, w.size(), a.size(), e); }
	SAME("make") bigEvent(L, "equal", n, b.size(), a == b && !(a < b) && a.compare(b) == 0);
	for (int k = 0; k < 12; k++) { size_t o = R.below(w.size() + 1), m = R.chance(1, 2) ? R.below(w.size() - o + 1) : R.below(300); char32_t c = 'a' + R.below(20); switch (R.below(8)) { case 0: { U x = a.substr(o, m); v = w.substr(o, m); bool e = x.size() == v.size(); for (size_t i = 0; e && i < v.size(); i++) if ((char32_t)x[i] != v[i]) e = false; bigEvent(L, "substr", v.size(), x.size(), e); break; } case 1: a.insert(o, b); w.insert(o, std::basic_string<char32_t>(b.begin(), b.end())); SAME("insert") break; case 2: a.erase(o, m); w.erase(o, m); SAME("erase") break; case 3: a.replace(o, m, n / 2 + 3, C(c)); w.replace(o, m, n / 2 + 3, c); SAME("replace") break; case 4: a.append(n, C(c)); w.append(n, c); SAME("append") break; case 5: a.resize(w.size() + m, C(c)); w.resize(w.size() + m, c); SAME("resize") break; case 6: a += b; w += std::basic_string<char32_t>(b.begin(), b.end()); SAME("add") break; default: { U x(1, C(c)); size_t f = w.find(c, o), g = w.rfind(c, o), h = w.find_first_not_of(std::basic_string<char32_t>(1, c), o); bigEvent(L, "find", n, n, a.find(C(c), o) == (f == std::u32string::npos ? NP : f) && a.rfind(x, o) == (g == std::u32string::npos ? NP : g) && a.find_first_not_of(x, o) == (h == std::u32string::npos ? NP : h)); } } if (w.size() > 3 * n) { a.resize(n); w.resize(n); } }
	{ std::string u; cybozu::String16 u6; V v2(w.begin(), w.end()); u = u8(v2); u6 = u16(v2); bigEvent(L, "utf8", u.size(), a.toUtf8().size(), a.toUtf8() == u); bigEvent(L, "utf16", u6.size(), a.toUtf16().size(), a.toUtf16() == u6); U x(u), y(u6); bigEvent(L, "from", w.size(), x.size(), x == a && y == a); }
	L.end(); } }
int main(int argc, char **argv) {
	Args ar(argc, argv); Rng r(ar.seed); gR = &r; Log L(ar.out);
	std::vector<std::vector<int> > sc = loadScript(ar.script);
	V l12; l12.push_back(1); l12.push_back(2); V l121 = l12; l121.push_back(1); V l2(1, 2);
	for (size_t i = 0; i < sc.size(); i++) if (ar.mine(i)) {
		L.start(); T t(L); Src x = { 2, 0, 0, false, l2, 3 }; t.edit("assign", 0, 0, x, 0); t.sw(); x.s = l121; t.edit("assign", 0, 0, x, 0);
		for (int k = 0; k < sc[i][0]; k++) { int o = sc[i][1 + k]; size_t n = t.a.size(); if (o == 0) { t.sw(); continue; }
			Src s[6] = { { 0, 0, NP, false, l12, 3 }, { 0, 1, 1, false, l12, 3 }, { 1, 0, NP, false, l12, 3 }, { 2, 0, 0, false, l12, 3 }, { 3, 0, 2, false, l12, 3 }, { 0, n + 1, 1, false, l12, 3 } }; size_t of[4] = { 0, 1, n, n + 1 }; int how = R.below(168); Src e0 = { 3, 0, 0, false, l12, 3 };
			if (o <= 6) t.edit("assign", 0, 0, s[o - 1], how); else if (o <= 12) t.edit("append", 0, 0, s[o - 7], how); else if (o <= 28) t.edit("insert", of[(o - 13) % 4], 0, s[(o - 13) / 4], how); else if (o <= 44) t.edit("replace", of[(o - 29) % 4], 1, s[(o - 29) / 4], how); else if (o <= 48) t.edit("erase", of[o - 45], 1, e0, how); else t.edit("resize", 0, o == 49 ? n + 2 : n / 2, e0, how); }
		t.both(); L.end();
	}
	for (int i = 0; i < 400 * ar.effort; i++) {
		L.start(); T t(L); int n = 6 + R.below(14);
		while (n--) { int o = R.below(16); if (o < 9) {
			static const char *k[] = { "assign", "append", "append", "insert", "insert", "replace", "replace", "erase", "resize" }; const char *op = k[R.below(9)]; Src x; x.k = R.below(4); x.c = T::ch(); x.z = R.chance(1, 3); x.s = t.pat(); const U& q = x.k == 1 ? t.b : t.a; x.off = 0; x.cnt = NP; if (x.k == 3) x.cnt = R.chance(1, 2) ? 1 : R.below(4); else if (R.chance(1, 2)) { x.off = t.offv(q.size()); x.cnt = R.chance(1, 3) ? NP : R.below(5); }
			size_t off = t.offv(t.a.size()), m = R.chance(1, 4) ? NP : R.below(5); if (!strcmp(op, "assign") || !strcmp(op, "append")) off = m = 0; if (!strcmp(op, "insert")) m = 0; if (!strcmp(op, "resize")) { off = 0; m = R.below(2 * t.a.size() + 3); } if (!strcmp(op, "erase") || !strcmp(op, "resize")) { x.k = 3; x.cnt = 0; } if (t.a.size() > 60 && x.k < 2) x.k = 2;
			if (x.k == 2 && R.chance(1, 4)) x.s.insert(x.s.begin() + R.below(x.s.size() + 1), 0); t.edit(op, off, m, x, x.k == 2 && R.chance(1, 2) ? 7 * R.below(24) + 5 + R.below(2) : R.below(168)); } else if (o < 13) t.query(); else if (o == 13) t.sw(); else if (o == 14) t.mv(); else t.both(); }
		t.both(); L.end();
	}
	bigAll(L, ar);
	return 0;
}
