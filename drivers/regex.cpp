// P39: regular expressions. Trees of expressions (from the model and random ones) are written as patterns and
// applied to texts through every constructor, function and iterator.
#include <cybozu/regex.hpp>
#include "verif.hpp"
using namespace verif; namespace cy = cybozu; typedef cy::String W; typedef std::wstring WS; typedef std::vector<int> V;
static Rng *gR;
#define R (*gR)
struct X { char t; int c; bool neg; std::vector<std::pair<int, int> > r; std::vector<X> l; int lo, hi; bool lazy; int n; int esc; X(char t_ = '.') : t(t_), c(0), neg(false), lo(0), hi(0), lazy(false), n(0), esc(0) {} };
X chr(int c) { X x('c'); x.c = c; return x; }
X rep(const X& y, int lo, int hi, bool lazy) { X x('*'); x.l.push_back(y); x.lo = lo; x.hi = hi; x.lazy = lazy; return x; }
X grp(int n, const X& y) { X x('('); x.n = n; x.l.push_back(y); return x; }
X list(char t, const X& a, const X& b) { X x(t); x.l.push_back(a); x.l.push_back(b); return x; }
X add(X x, const X& y) { x.l.push_back(y); return x; }
bool nullable(const X& x) { switch (x.t) { case 'c': case '.': case '[': return false; case ',': for (size_t i = 0; i < x.l.size(); i++) if (!nullable(x.l[i])) return false; return true; case '|': for (size_t i = 0; i < x.l.size(); i++) if (nullable(x.l[i])) return true; return false; case '*': return x.lo == 0 || nullable(x.l[0]); case '(': return nullable(x.l[0]); default: return true; } }
bool hasGroup(const X& x) { if (x.t == '(' && x.n) return true; for (size_t i = 0; i < x.l.size(); i++) if (hasGroup(x.l[i])) return true; return false; }
bool hasNul(const X& x) { if (x.t == 'c' && x.c == 0) return true; for (size_t i = 0; i < x.r.size(); i++) if (x.r[i].first == 0) return true; for (size_t i = 0; i < x.l.size(); i++) if (hasNul(x.l[i])) return true; return false; }
std::string js(const X& x) { J e; static const char *nm[][2] = { { "c", "c" }, { ".", "dot" }, { "[", "set" }, { ",", "seq" }, { "|", "alt" }, { "*", "rep" }, { "(", "grp" }, { "^", "bol" }, { "$", "eol" } }; for (size_t i = 0; i < 9; i++) if (nm[i][0][0] == x.t) e.str("t", nm[i][1]);
	std::vector<std::string> v; switch (x.t) { case 'c': e.n("c", x.c); break; case '[': for (size_t i = 0; i < x.r.size(); i++) { V p; p.push_back(x.r[i].first); p.push_back(x.r[i].second); v.push_back(J::arr(&p[0], 2)); } e.b("neg", x.neg).raw("r", jlist(v)); break; case ',': case '|': for (size_t i = 0; i < x.l.size(); i++) v.push_back(js(x.l[i])); e.raw("l", jlist(v)); break;
	case '*': e.raw("x", js(x.l[0])).n("lo", x.lo).n("hi", x.hi).b("lazy", x.lazy); break; case '(': e.n("n", x.n).raw("x", js(x.l[0])); break; } return e.end(); }
bool special(int c) { return c > 0 && c < 128 && strchr("\\^$.|?*+()[]{}-", c); }
void lit(WS& s, int c) { if (special(c)) s += L'\\'; s += (wchar_t)c; }
void pat(WS& s, const X& x, bool inAlt) { char b[32]; switch (x.t) {
	case 'c': lit(s, x.c); break; case '.': s += L'.'; break; case '^': s += L'^'; break; case '$': s += L'$'; break;
	case '[': if (x.esc) { s += L'\\'; s += (wchar_t)x.esc; break; } s += L'['; if (x.neg) s += L'^'; for (size_t i = 0; i < x.r.size(); i++) { lit(s, x.r[i].first); if (x.r[i].first != x.r[i].second) { s += L'-'; lit(s, x.r[i].second); } } s += L']'; break;
	case ',': for (size_t i = 0; i < x.l.size(); i++) { bool w = x.l[i].t == '|'; if (w) s += L"(?:"; pat(s, x.l[i], true); if (w) s += L')'; } break;
	case '|': if (inAlt) s += L"(?:"; for (size_t i = 0; i < x.l.size(); i++) { if (i) s += L'|'; pat(s, x.l[i], true); } if (inAlt) s += L')'; break;
	case '(': s += x.n ? L"(" : L"(?:"; pat(s, x.l[0], false); s += L')'; break;
	case '*': { const X& y = x.l[0]; bool w = y.t != 'c' && y.t != '.' && y.t != '[' && y.t != '('; if (w) s += L"(?:"; pat(s, y, false); if (w) s += L')'; if (x.lo == 0 && x.hi == -1) s += L'*'; else if (x.lo == 1 && x.hi == -1) s += L'+'; else if (x.lo == 0 && x.hi == 1) s += L'?'; else { if (x.hi == -1) snprintf(b, sizeof(b), "{%d,}", x.lo); else if (x.hi == x.lo) snprintf(b, sizeof(b), "{%d}", x.lo); else snprintf(b, sizeof(b), "{%d,%d}", x.lo, x.hi); for (char *p = b; *p; p++) s += (wchar_t)*p; } if (x.lazy) s += L'?'; } break; } }
static const int alpha[] = { 'a', 'b', 'c', 'A', 'B', '1', '_', 0x3042, 0x3044, 0x1f600, '.', '*', '(', '[', '\\', '-', '^', ']', '$', 0x2ffff, 0xffe5 };
int ch() { return R.chance(2, 3) ? alpha[R.below(5)] : R.chance(1, 12) ? 0 : alpha[R.below(sizeof(alpha) / sizeof(*alpha))]; }
X set() { X x('['); static const int rg[][2] = { { 'a', 'b' }, { 'b', 'z' }, { 'A', 'Z' }, { '0', '9' }, { 0x3041, 0x3043 }, { 0x1f5ff, 0x1f601 }, { 0x3044, 0x20000 }, { 'A', 'A' }, { 'c', 'c' } }; x.neg = R.chance(1, 3); int n = 1 + R.below(3); while (n--) { if (R.chance(1, 2)) { int c = ch(); x.r.push_back(std::make_pair(c, c)); } else { int k = R.below(9); x.r.push_back(std::make_pair(rg[k][0], rg[k][1])); } } return x; }
X cls() { X x('['); switch (R.below(4)) { case 0: x.r.push_back(std::make_pair('0', '9')); x.esc = 'd'; break; case 1: x.r.push_back(std::make_pair('0', '9')); x.neg = true; x.esc = 'D'; break; default: x.r.push_back(std::make_pair('0', '9')); x.r.push_back(std::make_pair('A', 'Z')); x.r.push_back(std::make_pair('a', 'z')); x.r.push_back(std::make_pair('_', '_')); x.neg = R.chance(1, 3); x.esc = x.neg ? 'W' : 'w'; } return x; }
X gen(int d, int& n, bool caps) { switch (d <= 0 ? R.below(4) : R.below(9)) { case 0: case 1: return chr(ch()); case 2: return R.chance(1, 3) ? X('.') : R.chance(1, 2) ? set() : cls(); case 3: return chr(alpha[R.below(3)]);
	case 4: { X x('|'); int k = 2 + R.below(2); while (k--) x.l.push_back(gen(d - 1, n, caps)); return x; }
	case 5: { int m = 0; if (caps && n < 4 && R.chance(1, 2)) m = ++n; return grp(m, gen(d - 1, n, caps)); }
	case 6: { X y = R.chance(1, 5) && caps && n < 4 ? grp(++n, gen(d - 1, n, false)) : gen(d - 1, n, false); if (nullable(y)) return y; int lo = R.below(3), hi = R.chance(1, 2) ? -1 : lo + R.below(3); if (hi == 0) hi = 1; return rep(y, lo, hi, R.chance(1, 3)); }
	default: { X x(','); int k = 2 + R.below(3); if (R.chance(1, 8)) x.l.push_back(X('^')); while (k--) x.l.push_back(gen(d - 1, n, caps)); if (R.chance(1, 8)) x.l.push_back(X('$')); return x; } } }
// a text the expression is likely to match
void sample(V& s, const X& x) { switch (x.t) { case 'c': s.push_back(x.c); break; case '.': s.push_back(ch()); break; case '[': s.push_back(x.neg || R.chance(1, 4) ? ch() : x.r[R.below(x.r.size())].first + R.below(2)); break; case ',': for (size_t i = 0; i < x.l.size(); i++) sample(s, x.l[i]); break; case '|': sample(s, x.l[R.below(x.l.size())]); break; case '(': sample(s, x.l[0]); break; case '*': { int k = x.lo + R.below(3); if (x.hi >= 0 && k > x.hi && R.chance(4, 5)) k = x.hi; while (k--) sample(s, x.l[0]); } break; } }
typedef cy::String::const_iterator It;
struct Fl { bool nb, ne, ct; cy::regex_constants::match_flag_type f() const { cy::regex_constants::match_flag_type r = cy::regex_constants::match_default; if (nb) r = r | cy::regex_constants::match_not_bol; if (ne) r = r | cy::regex_constants::match_not_eol; if (ct) r = r | cy::regex_constants::match_continuous; return r; } std::string js() const { return J().b("nb", nb).b("ne", ne).b("ct", ct).end(); } };
Fl flags() { Fl f = { false, false, false }; if (R.chance(1, 3)) { f.nb = R.chance(1, 3); f.ne = R.chance(1, 3); f.ct = R.chance(1, 3); } return f; }
std::string cps(const W& w) { V v; for (size_t i = 0; i < w.size(); i++) v.push_back((int)w[i]); return v.empty() ? "[]" : J::arr(&v[0], v.size()); }
void put(J& e, const cy::smatch& m, int n) { e.n("b", m.position() + 1).raw("str", cps(R.chance(1, 2) ? m.str() : m.str(0))).raw("pre", cps(m.prefix().str())).raw("suf", cps(R.chance(1, 2) ? m.suffix().str() : W(m.suffix()))); std::vector<std::string> g, h; for (int k = 1; k <= n; k++) { g.push_back(m[k].matched ? "true" : "false"); h.push_back(cps(m.str(k))); } if ((int)m.size() != n + 1) g.push_back("\"size\""); e.raw("got", jlist(g)).raw("grp", jlist(h)); }
void session(Log& L, const X& x, int n, bool ic, const std::vector<V>& texts) {
	WS p; pat(p, x, false); bool nul = hasNul(x); cy::regex::flag_type f = cy::regex_constants::ECMAScript; if (ic) f = f | cy::regex_constants::icase;
	std::vector<uint16_t> p16; for (size_t i = 0; i < p.size(); i++) { unsigned c = p[i]; if (c > 0xffff) { p16.push_back(0xd800 + ((c - 0x10000) >> 10)); p16.push_back(0xdc00 + ((c - 0x10000) & 0x3ff)); } else p16.push_back((uint16_t)c); } p16.push_back(0);
	L.start(J().end()); L.about("regex"); cy::regex *re = 0; W ps(p.begin(), p.end()); switch (R.below(nul ? 3 : 5)) { case 0: re = ic ? new cy::regex(ps, f) : new cy::regex(ps); break; case 1: { WS q = p + L"+?[("; re = ic || R.chance(1, 2) ? new cy::regex(q.data(), q.data() + p.size(), f) : new cy::regex(q.data(), q.data() + p.size()); } break; case 2: { WS q = p + L"+?[("; re = new cy::regex(q.data(), p.size(), f); } break; case 3: re = ic ? new cy::regex(p.c_str(), f) : new cy::regex(p.c_str()); break; default: re = ic ? new cy::regex((const cy::Char16*)&p16[0], f) : new cy::regex((const cy::Char16*)&p16[0]); }
	if (R.chance(1, 4)) { cy::regex *q = new cy::regex(*re); delete re; re = q; }
	L.ev(J("re").raw("x", js(x)).n("n", n).b("ic", ic)); bool nu = nullable(x);
	for (size_t ti = 0; ti < texts.size(); ti++) { const V& t = texts[ti]; W all, s; for (size_t i = 0; i < t.size(); i++) s += (cy::Char)t[i]; size_t pre = R.chance(1, 2) ? 0 : R.below(4), suf = R.below(4); for (size_t i = 0; i < pre; i++) all += (cy::Char)ch(); all += s; for (size_t i = 0; i < suf; i++) all += (cy::Char)ch(); const W& ca = all; It b = ca.begin() + pre, e = b + s.size(); if (!R.chance(1, 2)) { b = ((const W&)s).begin(); e = ((const W&)s).end(); }
		L.ev(J("text").raw("s", cps(s)));
		{ Fl fl = flags(); bool plain = !fl.nb && !fl.ne && !fl.ct; bool full = R.chance(3, 4), r; J v("match"); L.about("regex_match"); cy::smatch m; if (full) { if (R.chance(1, 2)) r = cy::regex_match(s, m, *re, fl.f()); else r = cy::regex_match(b, e, m, *re, fl.f()); if (plain && R.chance(1, 2)) r = cy::regex_match(s, m, *re); } else r = R.chance(1, 2) ? (plain ? cy::regex_match(s, *re) : cy::regex_match(s, *re, fl.f())) : cy::regex_match(b, e, *re, fl.f()); v.raw("fl", fl.js()).b("r", r).b("full", full); if (r && full) put(v, m, n); L.ev(v); }
		{ Fl fl = flags(); bool plain = !fl.nb && !fl.ne && !fl.ct; bool full = R.chance(3, 4), r; J v("search"); L.about("regex_search"); cy::smatch m; if (full) { if (R.chance(1, 2)) r = cy::regex_search(s, m, *re, fl.f()); else r = cy::regex_search(b, e, m, *re, fl.f()); if (plain && R.chance(1, 2)) r = cy::regex_search(s, m, *re); } else r = R.chance(1, 2) ? (plain ? cy::regex_search(s, *re) : cy::regex_search(s, *re, fl.f())) : cy::regex_search(b, e, *re, fl.f()); v.raw("fl", fl.js()).b("r", r).b("full", full); if (r && full) put(v, m, n); L.ev(v); }
		if (nu) continue;
		{ Fl fl = flags(); J v("iter"); L.about("sregex_iterator"); std::vector<std::string> l; cy::sregex_iterator i(b, e, *re, fl.f()), end; if (R.chance(1, 3)) { cy::sregex_iterator j(i); i = j; } for (; i != end;) { J o; const cy::smatch& m = *i; o.n("b", m.position() + 1).raw("str", cps(i->str())); std::vector<std::string> g; for (int k = 1; k <= n; k++) g.push_back(cps(R.chance(1, 2) ? m.str(k) : i->str(k))); o.raw("grp", jlist(g)); l.push_back(o.end()); if (R.chance(1, 2)) ++i; else i++; } L.ev(v.raw("fl", fl.js()).raw("l", jlist(l))); }
		{ Fl fl = flags(); J v("tok"); L.about("sregex_token_iterator"); V subs; int how = R.below(4); cy::sregex_token_iterator i, end; int q = R.below(n + 2) - 1; if (how == 0) { subs.push_back(0); i = (fl.nb || fl.ne || fl.ct) ? cy::sregex_token_iterator(b, e, *re, 0, fl.f()) : cy::sregex_token_iterator(b, e, *re); } else if (how == 1) { subs.push_back(q); i = cy::sregex_token_iterator(b, e, *re, q, fl.f()); } else if (how == 2) { int k = 1 + R.below(3); while (k--) subs.push_back(R.below(n + 2) - 1); i = cy::sregex_token_iterator(b, e, *re, subs, fl.f()); } else { int a[2] = { q, R.below(n + 2) - 1 }; subs.push_back(a[0]); subs.push_back(a[1]); i = cy::sregex_token_iterator(b, e, *re, a, fl.f()); }
			std::vector<std::string> l; while (i != end) { if (R.chance(1, 2)) { W w = *i++; l.push_back(cps(w)); } else { l.push_back(cps((*i).str())); ++i; } if (l.size() > 200) break; } L.ev(v.raw("fl", fl.js()).nums("subs", subs).raw("l", jlist(l))); }
		{ Fl fl = flags(); bool first = R.chance(1, 3), copy = !R.chance(1, 4); J v("repl"); L.about("regex_replace"); V fm; W fs; int k = R.below(4); while (k--) { if (R.chance(1, 2)) { int g = R.below(n + 1); fm.push_back(-1 - g); fs += (cy::Char)'$'; fs += (cy::Char)(g ? '0' + g : '&'); } else { int c = ch(); if (c == '1' || c == '(') c = 'x'; fm.push_back(c); if (c == '$') fs += (cy::Char)'$'; if (c == '\\') fs += (cy::Char)'\\'; fs += (cy::Char)c; } }
			cy::regex_constants::match_flag_type g = fl.f(); if (first) g = g | cy::regex_constants::format_first_only; if (!copy) g = g | cy::regex_constants::format_no_copy; W r = R.chance(1, 2) ? (!fl.nb && !fl.ne && !fl.ct && !first && copy && R.chance(1, 2) ? cy::regex_replace(s, *re, fs) : cy::regex_replace(s, *re, fs, g)) : cy::regex_replace(b, e, *re, fs, g); L.ev(v.raw("fl", fl.js()).nums("f", fm).b("first", first).b("copy", copy).raw("r", cps(r))); }
	}
	delete re; L.end(); }
X script(const V& q) { const X at[] = { chr('a'), chr('b'), X('.'), X('[') }; X na = at[3]; na.neg = true; na.r.push_back(std::make_pair('a', 'a')); X A[] = { at[0], at[1], at[2], na }; static const int rp[][3] = { { 1, 1, 0 }, { 0, -1, 0 }, { 1, -1, 0 }, { 0, 1, 0 }, { 0, -1, 1 }, { 1, -1, 1 }, { 0, 1, 1 }, { 2, 2, 0 }, { 1, 2, 0 } };
#define REP(x, r) ((r) == 1 ? (x) : rep(x, rp[(r) - 1][0], rp[(r) - 1][1], rp[(r) - 1][2]))
	X x = REP(A[q[1] - 1], q[3]), y = REP(A[q[2] - 1], q[4]), z = A[q[5] - 1]; switch (q[0]) { case 1: return add(list(',', grp(1, x), grp(2, y)), z);
	case 2: return add(list(',', grp(1, list('|', list(',', A[q[1] - 1], z), A[q[2] - 1])), REP(z, q[4])), grp(2, x)); case 3: return list(',', REP(grp(1, list(',', A[q[1] - 1], A[q[5] - 1])), q[3]), grp(2, y)); default: return list('|', add(list(',', X('^'), grp(1, x)), z), add(list(',', grp(2, y), z), X('$'))); } }
void bigAll(Log& L, const Args& a) { std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 600000 : 140000); for (size_t q = 0; q < z.size(); q++) { size_t n = z[q]; L.start(J().end()); L.about("big"); std::string d = bigData(n, R.u64()); W s, want, f; size_t cnt = 0; static const int cs[] = { 'a', 'b', 0x3042, 0x1f600 }; std::vector<size_t> pos; for (size_t i = 0; i < n; i++) { int c = cs[(unsigned char)d[i] % 4]; if (i + 1 == n) c = 'b'; s += (cy::Char)c; if (c == 'b') { pos.push_back(i); cnt++; want += (cy::Char)'x'; want += (cy::Char)'b'; want += (cy::Char)'y'; } else want += (cy::Char)c; } cy::regex re(L"b"); f = W("x$&y"); try { W r = cy::regex_replace(s, re, f); bigEvent(L, "replace", want.size(), r.size(), r == want); bool ok = true; size_t k = 0; for (cy::sregex_iterator i(s.begin(), s.end(), re), e; i != e; ++i, k++) if (k >= cnt || (size_t)i->position() != pos[k]) ok = false; bigEvent(L, "iter", cnt, k, ok); k = 0; W j; for (cy::sregex_token_iterator i(s.begin(), s.end(), re, -1), e; i != e; ++i) { if (k++) j += (cy::Char)'b'; j += (*i).str(); } j += (cy::Char)'b'; bigEvent(L, "split", s.size(), j.size(), j == s); W u(n, (cy::Char)'a'); u += (cy::Char)'q'; cy::smatch m; bool hit = cy::regex_search(u, m, cy::regex(L"q")); bigEvent(L, "search", n, hit ? m.position() : 0, hit && m.prefix().str().size() == n); hit = cy::regex_match(u, m, cy::regex(L"(a*)q")); bigEvent(L, "match", n + 1, hit ? m.str(0).size() : 0, hit && m.str(1).size() == n); } catch (std::exception&) { bigEvent(L, "throw", n, n, false); } L.end(); } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; std::vector<std::vector<int> > sc = loadScript(a.script); Log L(a.out, 60);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i) && (a.effort > 1 || R.chance(1, 24))) { V t(sc[i].begin() + 6, sc[i].end()); std::vector<V> ts(1, t); session(L, script(sc[i]), 2, R.chance(1, 10), ts); }
	for (int i = 0; i < 250 * a.effort; i++) { int n = 0; X x = gen(1 + R.below(3), n, true); if (R.chance(1, 8)) x = list(',', x, chr(ch())); if (R.chance(1, 30)) x = add(list(',', chr(0), x), chr(0)); std::vector<V> ts; int k = 1 + R.below(4); while (k--) { V t; int m = R.below(4); while (m--) { if (R.chance(1, 3)) { int j = R.below(4); while (j--) t.push_back(ch()); } else sample(t, x); } if (R.chance(1, 6) && !t.empty()) t[R.below(t.size())] = ch(); if (t.size() > 40) t.resize(40); ts.push_back(t); } session(L, x, n, R.chance(1, 4), ts); }
	bigAll(L, a);
	return 0;
}
