// P16: mini XML
#include <string.h>
#include <iostream>
#include <stdexcept>
#include <cybozu/minixml.hpp>
#include "verif.hpp"
using namespace verif;
typedef std::string S;
static Rng *gR;
#define R (*gR)
typedef cybozu::minixml::Node Node;
typedef cybozu::minixml::NodeList NodeList;
void flat(const Node *n, int d, std::vector<const Node*>& v, std::vector<int>& ds, bool& ok) {
	v.push_back(n); ds.push_back(d);
	for (NodeList::const_iterator i = n->child.begin(); i != n->child.end(); ++i) { if ((*i)->parent != n) ok = false; flat(*i, d + 1, v, ds, ok); }
}
// the attributes as printed by the class itself cannot be told apart from the values, so known keys are asked for
S attrsOf(const Node *n, const std::vector<S>& keys) {
	std::vector<S> t; for (size_t i = 0; i < keys.size(); i++) if (const S *p = n->attr.query(keys[i])) t.push_back("[" + jbytes(keys[i]) + "," + jbytes(*p) + "]"); return jlist(t);
}
void doc(Log& L, const S& s, std::vector<S> keys, bool iter) {
	for (size_t i = 0; i < s.size();) { size_t j = i; while (j < s.size() && (isalnum((unsigned char)s[j]) || strchr("_:-.", s[j])) && s[j]) j++; if (j > i) { S k = s.substr(i, j - i); bool u = false; for (size_t n = 0; n < keys.size(); n++) if (keys[n] == k) u = true; if (!u) keys.push_back(k); i = j; } else i++; }
	L.about("parse " + s.substr(0, 200)); bool ok = true, par = true; std::vector<S> nodes; std::vector<const Node*> v; std::vector<int> ds;
	cybozu::MiniXml x; char *m = (char*)malloc(s.size() + 1); memcpy(m, s.data(), s.size()); char *q = (char*)malloc(s.size() ? s.size() : 1); memcpy(q, s.data(), s.size()); free(m);
	try { if (iter) { typedef cybozu::minixml::InputStream<S::const_iterator> I; I is(s.begin(), s.end()); x.parse(is); } else x.parse(q, q + s.size()); } catch (std::exception&) { ok = false; }
	if (ok) { flat(&x.get(), 0, v, ds, par); for (size_t i = 0; i < v.size(); i++) nodes.push_back(J().bytes("n", v[i]->name).n("d", ds[i]).raw("a", attrsOf(v[i], keys)).bytes("c", v[i]->content).end()); }
	L.ev(J("parse").bytes("s", s).b("ok", ok).b("parents", par).raw("nodes", jlist(nodes)));
	if (ok) {
		for (int k = 0; k < 3; k++) { S nm = R.chance(3, 4) ? v[R.below(v.size())]->name : "zz"; const Node *p = x.get().getFirstTagByName(nm); int r = 0; for (size_t i = 0; i < v.size(); i++) if (v[i] == p) r = i + 1; L.ev(J("find").bytes("n", nm).n("r", r)); }
		for (int k = 0; k < 2; k++) { int i = R.below(v.size()); S key = R.chance(3, 4) && !keys.empty() ? R.pick(keys) : "zz"; S val; bool g = true; const Node *p = v[i]; try { val = p->attr[key]; } catch (std::exception&) { g = false; } L.ev(J("attr").n("i", i + 1).bytes("k", key).b("ok", g).bytes("v", val)); }
	}
	free(q);
}
S blank() { static const char *b[] = { "", "", " ", "\n", "\t ", "\r\n  " }; return b[R.below(6)]; }
S blank1() { static const char *b[] = { " ", "\n", "\t", "  ", "\r\n" }; return b[R.below(5)]; }
S name() { static const char *n[] = { "a", "b", "ab", "p:x", "A-1", "x.y_z", "item" }; return n[R.below(7)]; }
S val() { S s; size_t n = R.chance(1, 5) ? R.below(30) : R.below(5); const S c = "ab 1=/>?&;x\t"; for (size_t i = 0; i < n; i++) s += c[R.below(c.size())]; if (R.chance(1, 8)) s += "\xe3\x81\x82"; return s; }
S attrs(bool dup) { S s; int n = R.below(4); std::vector<S> used; while (n--) { S k = name(); bool u = false; for (size_t i = 0; i < used.size(); i++) if (used[i] == k) u = true; if (u && !dup) continue; used.push_back(k); char q = R.chance(1, 2) ? '"' : '\''; S v = val(); if (R.chance(1, 4)) v += q == '"' ? '\'' : '"'; s += blank1() + k + blank() + "=" + blank() + q + v + q; } return s; }
S elem(int d, bool mixed) {
	S n = name(), s = "<" + n + attrs(R.chance(1, 20)) + blank(); if (R.chance(1, 3)) return s + "/>"; s += ">"; int k = d <= 0 ? 0 : R.below(4); int t = R.chance(1, 2) ? R.below(k + 1) : -1;
	for (int i = 0; i <= k; i++) { s += blank(); if (i == t || (mixed && R.chance(1, 2))) { static const char *x[] = { "text", "x", "a &lt; b", "1 > 0 \n", "\xe3\x81\x82 ", "=\"q\"" }; s += x[R.below(6)]; } if (i < k) s += elem(d - 1, mixed); }
	return s + "</" + n + ">";
}
S document() { static const char *h[] = { "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding=\"UTF-8\" standalone=\"yes\" ?>", "<?xml ?>", " \n<?xml a = 'b'?>" }; return S(h[R.below(4)]) + blank() + elem(R.below(4), R.chance(1, 6)) + blank(); }
S mutate(S s) { int n = 1 + R.below(2); static const char *ins[] = { "<", ">", "/", "\"", "'", "=", " ", "a", "</a>", "<a>", "<!-- c -->", "?", "&", "</", "/>", "<b/>" }; while (n--) { size_t p = R.below(s.size() + 1); switch (R.below(4)) { case 0: s = s.substr(0, p); break; case 1: s.insert(p, ins[R.below(16)]); break; case 2: if (p < s.size()) s.erase(p, 1 + R.below(3)); break; default: if (p < s.size()) s[p] = ins[R.below(9)][0]; } } return s; }
std::vector<S> keys() { static const char *n[] = { "a", "b", "ab", "p:x", "A-1", "x.y_z", "item", "k" }; return std::vector<S>(n, n + 8); }
void esc(Log& L, const S& s) { L.about("escape"); S r = cybozu::minixml::escape(s); L.ev(J("esc").bytes("s", s).bytes("r", r)); }
void unesc(Log& L, const S& s) { L.about("unescape"); S r; bool ok = true; char *q = (char*)malloc(s.size() + 1); memcpy(q, s.c_str(), s.size() + 1); try { r = cybozu::minixml::unescape(s); } catch (std::exception&) { ok = false; } free(q); L.ev(J("unesc").bytes("s", s).b("ok", ok).bytes("r", r)); }
void bigAll(Log& L, const Args& a) { std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 1100000 : 140000); for (size_t q = 0; q < z.size(); q++) { size_t n = z[q]; L.start(); L.about("big"); S d = bigData(n, R.u64()), e = cybozu::minixml::escape(d), w; for (size_t i = 0; i < n; i++) switch (d[i]) { case '&': w += "&amp;"; break; case '<': w += "&lt;"; break; case '>': w += "&gt;"; break; case '\'': w += "&apos;"; break; case '"': w += "&quot;"; break; default: w += d[i]; } bigEvent(L, "escape", w.size(), e.size(), e == w); S u = cybozu::minixml::unescape(e); bigEvent(L, "unescape", n, u.size(), u == d); S am(n, '&'); bigEvent(L, "amp", n, cybozu::minixml::unescape(cybozu::minixml::escape(am)).size(), true);
	try { S v(n, 'v'), t(n, 't'), s = "<?xml version=\"1.0\"?><r k='" + v + "'>"; size_t k = n / 8 + 3; for (size_t i = 0; i < k; i++) { char b[64]; snprintf(b, sizeof(b), "<e id='%u'>%u</e>", (unsigned)i, (unsigned)(i * 7)); s += b; } s += "<" + v + ">" + t + "</" + v + "></r>"; cybozu::MiniXml x; x.parse(s.data(), s.data() + s.size()); const Node& r = x.get(); bigEvent(L, "attr", n, r.attr["k"].size(), r.attr["k"] == v); size_t i = 0; bool ok = true; for (NodeList::const_iterator it = r.child.begin(); it != r.child.end(); ++it, ++i) { char b[32]; snprintf(b, sizeof(b), "%u", (unsigned)i); char c[32]; snprintf(c, sizeof(c), "%u", (unsigned)(i * 7)); if (i < k) { const Node& y = **it; if (y.attr["id"] != b || y.content != c || y.name != "e") ok = false; } else if ((*it)->name != v || (*it)->content != t) ok = false; } bigEvent(L, "children", k + 1, r.child.size(), ok);
		size_t dep = n > 2000 ? 2000 : n; s = "<?xml version=\"1.0\"?>"; for (size_t j = 0; j < dep; j++) s += "<d>"; s += "x"; for (size_t j = 0; j < dep; j++) s += "</d>"; cybozu::MiniXml y; y.parse(s.data(), s.data() + s.size()); const Node *p = &y.get(); size_t m = 1; while (!p->child.empty()) { p = p->child.front(); m++; } bigEvent(L, "depth", dep, m, p->content == "x"); } catch (std::exception&) { bigEvent(L, "parse", n, n, false); } L.end(); } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out); std::vector<S> ks = keys();
	std::vector<std::vector<int> > sc = loadScript(a.script);
	static const char *tk[] = { "", "<a>", "</a>", "<b k='>'>", "</b>", "<a/>", "x", " " }; static const char ch[] = " &<>'\"a;";
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { S s = "<?xml v=\"1\"?>", t; for (int k = 0; k < sc[i][0]; k++) { s += tk[sc[i][1 + k]]; t += ch[sc[i][1 + k]]; } L.start(); doc(L, s, ks, false); esc(L, t); unesc(L, cybozu::minixml::escape(t)); unesc(L, t); L.end(); }
	for (int i = 0; i < 350 * a.effort; i++) { L.start(); S s = document(); doc(L, s, ks, R.chance(1, 2)); for (int k = 0; k < 2; k++) doc(L, mutate(s), ks, R.chance(1, 2)); if (R.chance(1, 3)) doc(L, s.substr(0, R.below(s.size() + 1)), ks, false); L.end(); }
	static const char *pc[] = { "&amp;", "&lt;", "&gt;", "&apos;", "&quot;", "&", "&am", "&lt", ";", "a", "b c", "\xff", "&quot", "&apos", "&#65;", "&AMP;", "<" };
	for (int i = 0; i < 150 * a.effort; i++) { L.start(); for (int k = 0; k < 4; k++) { S s; size_t n = R.below(12); for (size_t j = 0; j < n; j++) s += char(R.chance(1, 2) ? "&<>'\";"[R.below(6)] : R.below(256)); esc(L, s); unesc(L, cybozu::minixml::escape(s)); S t; n = R.below(5); for (size_t j = 0; j < n; j++) t += pc[R.below(R.chance(1, 2) ? 5 : 17)]; unesc(L, t); } L.end(); }
	bigAll(L, a);
	return 0;
}
