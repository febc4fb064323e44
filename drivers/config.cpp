// P14: configuration files
#include <string.h>
#include <fstream>
#include <sstream>
#include <cybozu/config.hpp>
#include "verif.hpp"
using namespace verif;
static Rng *gR;
#define R (*gR)
typedef std::string S; typedef cybozu::Config C;
J dumpTo(J j, const C& c) { std::vector<S> secs, ents; for (C::Map::const_iterator i = c.getMap().begin(); i != c.getMap().end(); ++i) { secs.push_back(jbytes(i->first)); for (C::Section::Map::const_iterator k = i->second.getMap().begin(); k != i->second.getMap().end(); ++k) ents.push_back("[" + jbytes(i->first) + "," + jbytes(k->first) + "," + jbytes(k->second) + "]"); } return j.raw("secs", jlist(secs)).raw("ents", jlist(ents)); }
bool load(C& c, const S& t) {
	try { switch (R.below(3)) { case 0: { std::ofstream f("c.ini", std::ios::binary | std::ios::trunc); f << t; f.close(); c.load(S("c.ini")); break; } default: { std::istringstream is(t); c.load(is); } } return true; } catch (cybozu::Exception&) { return false; }
}
template<class T> void getInt(Log& L, const C::Section& sec, const S& s, const S& n) {
	bool def = R.chance(1, 2), ok = true; T v = 0; L.about("getValue");
	try { if (def) v = sec.getValue(n, T(77)); else v = sec.getValue(n); } catch (cybozu::Exception&) { ok = false; }
	bool neg = v < 0; uint64_t a = neg ? 0 - (uint64_t)(int64_t)v : (uint64_t)v;
	L.ev(J("getInt").bytes("s", s).bytes("n", n).b("hasDef", def).b("ok", ok).n("bits", sizeof(T) * 8).b("sg", T(-1) < T(0)).b("neg", neg).limbs("abs", a));
}
void check(Log& L, const C& c, std::vector<S> names) {
	L.ev(dumpTo(J("dump"), c)); L.about("toString");
	S t = c.toString(); L.ev(J("str").bytes("text", t));
	C d; bool ok = load(d, t); L.ev(dumpTo(J("reload").b("ok", ok), d));
	names.push_back("zz"); std::vector<S> secs(names); secs.push_back("");
	for (int k = 0; k < 5; k++) {
		S s = R.pick(secs); const C::Section *p = c.querySection(s); bool th = false; try { c.getSection(s); } catch (cybozu::Exception&) { th = true; }
		L.ev(J("hasSec").bytes("s", s).b("found", p != 0).b("thrown", th)); if (!p) continue;
		for (int q = 0; q < 3; q++) {
			S n = R.pick(names); if (!p->getMap().empty() && R.chance(2, 3)) { C::Section::Map::const_iterator it = p->getMap().begin(); std::advance(it, R.below(p->getMap().size())); n = it->first; }
			const S *v = p->queryValue(n); L.ev(J("query").bytes("s", s).bytes("n", n).b("found", v != 0).bytes("v", v ? *v : S()));
			bool def = R.chance(1, 2), gok = true; S gv; try { if (def) gv = p->getValue(n, S("dflt")); else gv = (const S&)p->getValue(n); } catch (cybozu::Exception&) { gok = false; }
			L.ev(J("getStr").bytes("s", s).bytes("n", n).b("hasDef", def).bytes("def", S("dflt")).b("ok", gok).bytes("v", gv));
			switch (R.below(6)) { case 0: getInt<short>(L, *p, s, n); break; case 1: getInt<unsigned short>(L, *p, s, n); break; case 2: getInt<int>(L, *p, s, n); break; case 3: getInt<unsigned>(L, *p, s, n); break; case 4: getInt<int64_t>(L, *p, s, n); break; default: getInt<uint64_t>(L, *p, s, n); }
		}
	}
}
S name() { static const char *v[] = { "a", "b", "A", "a1", "_", "zz", "key", "0", "Z9_", "sec1" }; return v[R.below(10)]; }
S value() { switch (R.below(6)) { case 0: return ""; case 1: return " x y "; case 2: return "=a=[b];#"; case 3: { S s; size_t n = R.below(R.chance(1, 6) ? 3000 : 8); for (size_t i = 0; i < n; i++) { char c = char(R.u64()); if (c == '\n' || c == '\r') c = '.'; s += c; } return s; } default: { static const char *v[] = { "0", "1", "-1", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "007", "1x", " 1", "1 ", "-", "123" }; return v[R.below(25)]; } } }
S line() { switch (R.below(12)) { case 0: return ""; case 1: return (R.chance(1, 2) ? "#" : ";") + value(); case 2: case 3: case 4: return "[" + name() + "]"; case 5: { static const char *v[] = { "[]", "[", "]", "[a", "a]", "=", "=1", " a=1", "a b=1", "a", " ", "[a b]", "[a] ", "a\t =x", "a.b=1", "[[a]]", "a\r=1", "a=\r", "a=x\ry", "\r", "[a]\r" }; return v[R.below(21)]; } default: return name() + S(R.below(3), R.chance(1, 2) ? ' ' : '\t') + "=" + value(); } }
void session(Log& L, const std::vector<S>& texts, int adds) {
	C c; L.start(); std::vector<S> names; for (int i = 0; i < 4; i++) names.push_back(name());
	bool ok = true;
	for (size_t k = 0; k < texts.size() && ok; k++) { L.about("load"); ok = load(c, texts[k]); L.ev(J("load").bytes("text", texts[k]).b("ok", ok)); }
	if (ok && !texts.empty() && adds == 0) check(L, c, names);
	for (int k = 0; k < adds && ok; k++) {
		S s = R.chance(1, 6) ? (R.chance(1, 2) ? "a b" : "x-") : R.chance(1, 4) ? "" : name(); bool sok = true; C::Section *p = 0; try { p = c.appendSection(s); } catch (cybozu::Exception&) { sok = false; } L.ev(J("addSec").bytes("s", s).b("ok", sok)); if (!p) continue;
		int m = R.below(4); while (m--) { S n = R.chance(1, 6) ? (R.chance(1, 2) ? "" : "a=") : name(), v = value(); bool aok = true; try { p->append(n, v); } catch (cybozu::Exception&) { aok = false; } L.ev(J("add").bytes("s", s).bytes("n", n).bytes("v", v).b("ok", aok)); }
	}
	if (ok && adds && R.chance(1, 3)) { // a whole section
		C::Section q; S s = R.chance(1, 6) ? S("x-") : R.chance(1, 4) ? S() : name(); std::vector<S> e; int m = R.below(3); while (m--) { S n = name(), v = value(); try { q.append(n, v); e.push_back("[" + jbytes(s) + "," + jbytes(n) + "," + jbytes(v) + "]"); } catch (cybozu::Exception&) {} }
		bool sok = true; L.about("appendSection"); try { if (&c.appendSection(s, q) != &c) sok = false; } catch (cybozu::Exception&) { sok = false; } L.ev(J("putSec").bytes("s", s).raw("ents", jlist(e)).b("ok", sok)); }
	if (ok && adds && R.chance(1, 3)) { S s = name(); C::Section *p = c.querySection(s); L.ev(J("hasSec").bytes("s", s).b("found", p != 0).b("thrown", p == 0)); if (p) { S n = name(), v = value(); bool aok = true; try { p->append(n, v); } catch (cybozu::Exception&) { aok = false; } L.ev(J("add").bytes("s", s).bytes("n", n).bytes("v", v).b("ok", aok)); } }
	if (ok && R.chance(1, 10)) { bool th = false; try { if (R.chance(1, 2)) c.load(S("no-such-dir/c.ini")); else { C x(S("no-such-file.ini")); } } catch (cybozu::Exception&) { th = true; } L.ev(J("nofile").b("thrown", th)); }
	if (ok && adds) check(L, c, names);
	L.end();
}
void bigAll(Log& L, const Args& a) { std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 1100000 : 140000); for (size_t q = 0; q < z.size(); q++) { size_t n = z[q]; L.start(); L.about("big"); S d(n, 'v'), k(n, 'k'); for (size_t i = 0; i < n; i += 3) d[i] = "= #["[i % 4]; bool ok = true; try { C c; c.appendSection("")->append("long", d); C::Section *p = c.appendSection("s"); p->append(k, "1"); size_t m = n / 4 + 1; for (size_t i = 0; i < m; i++) { char b[32]; snprintf(b, sizeof(b), "k%u", (unsigned)i); p->append(b, d.substr(0, i % 7)); } for (size_t i = 0; i < n / 16; i++) { char b[32]; snprintf(b, sizeof(b), "s%u", (unsigned)i); c.appendSection(b)->append("x", b); } S t = c.toString(); C e; if (!load(e, t)) ok = false; bigEvent(L, "reload", c.getMap().size(), e.getMap().size(), ok && (const S&)e.getSection("").getValue("long") == d && (const S&)e.getSection("s").getValue(k) == "1"); bigEvent(L, "keys", m + 1, e.getSection("s").getMap().size(), e.getSection("s").getMap() == c.getSection("s").getMap()); bool same = true; for (C::Map::const_iterator i = c.getMap().begin(), j = e.getMap().begin(); i != c.getMap().end(); ++i, ++j) if (j == e.getMap().end() || i->first != j->first || i->second.getMap() != j->second.getMap()) { same = false; break; } bigEvent(L, "all", n, n, same); } catch (std::exception&) { bigEvent(L, "throw", n, n, false); } L.end(); } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out);
	std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { S t; for (int k = 0; k < sc[i][0]; k++) t += (char)sc[i][1 + k]; if (R.chance(1, 3)) t = "a=1\n[a]\n" + t; session(L, std::vector<S>(1, t), 0); }
	for (int i = 0; i < 250 * a.effort; i++) {
		std::vector<S> ts; int k = R.below(3); bool bad = R.chance(1, 3);
		while (k-- >= 0) { S t; int n = R.below(8); while (n--) { S l = line(); if (!bad) { C c; std::istringstream is(l); try { c.load(is); } catch (cybozu::Exception&) { continue; } } t += l; if (n || R.chance(1, 2)) t += R.chance(1, 3) ? "\r\n" : "\n"; } ts.push_back(t); }
		session(L, ts, R.chance(1, 4) ? 1 + R.below(4) : 0);
	}
	bigAll(L, a);
	return 0;
}
