// P09: FM-index
#include <cybozu/fmindex.hpp>
#include <sstream>
#include <set>
#include <algorithm>
#include "verif.hpp"
using namespace verif;
static Rng *gR;
#define R (*gR)
template<class T, bool raw> struct Run {
	typedef cybozu::FMindexT<T, raw> FM; typedef std::vector<T> Text;
	static FM& used() { static FM *p = new FM; return *p; }
	static std::string js(const Text& t) { return J::arr(t.data(), t.size()); }
	template<class Key> static void query(Log& L, const FM& fm, const Text& pat, const Key& key, bool prev, size_t n) {
		L.about("query"); size_t b = 0, e = 0; uint32_t b4 = 0, e4 = 0; bool found;
		if (R.chance(1, 2)) found = fm.getRange(&b, &e, key); else { found = fm.getRange(&b4, &e4, key); b = b4; e = e4; }
		std::vector<int64_t> pos; if (found) for (size_t i = b; i < e && pos.size() < n + 5; i++) pos.push_back(fm.convertPosition(i));
		L.ev(J("query").raw("pat", js(pat)).b("found", found).raw("pos", J::arr(pos.data(), pos.size())));
		if (prev && found) for (int k = 0; k < 3; k++) {
			size_t i = R.below(pos.size()), len = R.chance(1, 3) ? R.below(n + 3) : R.below(6);
			if (R.chance(1, 2) && sizeof(T) == 1) { std::string s = "junk"; fm.getPrevString(s, b + i, len); L.ev(J("prev").n("p", pos[i]).n("n", len).bytes("str", s)); }
			else { Text s(3); fm.getPrevString(s, b + i, len); L.ev(J("prev").n("p", pos[i]).n("n", len).raw("str", js(s))); }
		}
	}
	static void session(Log& L, const std::vector<Text>& texts) {
		FM fresh; FM& fm = R.chance(1, 2) ? fresh : used();
		L.start(); std::set<T> allSyms; for (size_t k = 0; k < texts.size(); k++) allSyms.insert(texts[k].begin(), texts[k].end());
		for (size_t k = 0; k < texts.size(); k++) {
			const Text& t = texts[k];
			if (R.chance(1, 12)) { bool th = false; FM tmp; try { tmp.init(t.begin(), t.end(), -(int)R.below(3)); } catch (cybozu::Exception&) { th = true; } L.ev(J("badskip").b("thrown", th)); }
			L.about("init"); bool ok = true;
			try { if (R.chance(1, 4)) fm.init(t.begin(), t.end()); else fm.init(t.begin(), t.end(), R.chance(1, 2) ? 1 + R.below(4) : 1 + R.below(40)); } catch (cybozu::Exception&) { ok = false; }
			L.ev(J("init").raw("text", js(t)).b("ok", ok).n("maxSyms", raw || sizeof(T) > 1 ? 65535 : 255));
			if (!ok) break;
			std::vector<T> syms(allSyms.begin(), allSyms.end()); if (syms.empty() || R.chance(1, 2)) { T c = T(1 + R.below(raw && sizeof(T) == 1 ? 255 : 200)); if (!raw && R.chance(1, 3)) c = 0; syms.push_back(c); }
			for (int pass = 0; pass < 2; pass++) {
				int nq = t.size() < 12 ? 12 : 10;
				for (int q = 0; q < nq; q++) {
					Text p; if (R.chance(3, 4) && !t.empty()) { size_t i = R.below(t.size()), len = 1 + (R.chance(1, 5) ? R.below(t.size()) : R.below(5)); p.assign(t.begin() + i, t.begin() + std::min(t.size(), i + len)); if (R.chance(1, 4)) p[R.below(p.size())] = syms[R.below(syms.size())]; if (R.chance(1, 8)) p.push_back(syms[R.below(syms.size())]); }
					else { size_t len = 1 + R.below(3); for (size_t i = 0; i < len; i++) p.push_back(syms[R.below(syms.size())]); }
					if (R.chance(1, 20)) p.clear(); const bool z = std::find(p.begin(), p.end(), T(0)) != p.end(); if (sizeof(T) == 1 && !z && R.chance(1, 3)) { std::string k(p.begin(), p.end()); query(L, fm, p, k.c_str(), true, t.size()); } else if (sizeof(T) == 1 && R.chance(1, 2)) query(L, fm, p, std::string(p.begin(), p.end()), true, t.size()); else query(L, fm, p, p, true, t.size());
				}
				if (pass == 0 && R.chance(1, 3)) {
					L.about("save/load"); std::stringstream ss; fm.save(ss); FM f2; FM& d = R.chance(1, 2) ? f2 : used();
					if (&d == &fm) { fm.load(ss); } else { d.load(ss); }
					std::string rest; std::getline(ss, rest, '\0'); L.ev(J("saveload").b("ok", rest.empty()));
					if (&d != &fm) for (int q = 0; q < 6 && !t.empty(); q++) { size_t i = R.below(t.size()); Text p(t.begin() + i, t.begin() + std::min(t.size(), i + 1 + R.below(3))); query(L, d, p, p, true, t.size()); }
				} else break;
			}
		}
		L.end();
	}
	static void gen(Log& L) {
		std::vector<Text> ts; int k = 1 + R.below(3);
		while (k--) { size_t n = R.chance(1, 3) ? R.below(10) : R.below(R.chance(1, 4) ? 600 : 120); int alpha = 1 + R.below(R.chance(1, 2) ? 3 : 40); Text t(n); std::vector<T> al; for (int i = 0; i < alpha; i++) { T c = T(R.chance(1, 5) ? ~R.below(3) : R.chance(1, 2) ? 'a' + R.below(20) : R.u64()); if (raw && c == 0) c = 1; al.push_back(c); } size_t per = 1 + R.below(12); bool periodic = R.chance(1, 3); for (size_t i = 0; i < n; i++) t[i] = periodic && i >= per && !R.chance(1, 20) ? t[i - per] : al[R.below(alpha)]; ts.push_back(t); }
		session(L, ts);
	}
	static void script(Log& L, const std::vector<int>& s) { // model text over 3 symbols, mapped to arbitrary ones
		T al[4]; al[1] = T(1 + R.below(3)); al[2] = T(R.chance(1, 2) ? 'b' : 0xff); al[3] = T(R.chance(1, 2) ? 'a' : 0x80); if (R.chance(1, 2)) std::swap(al[1], al[3]);
		Text t; for (int i = 0; i < s[0]; i++) t.push_back(al[s[1 + i]]); std::vector<Text> ts(1, t); session(L, ts);
	}
	static void wide(Log& L) { // many distinct symbols: round the limit of the alphabet
		size_t m = sizeof(T) == 1 ? 250 + R.below(7) : 300; Text t; for (size_t i = 0; i < m; i++) { T c = T(i); if (raw && c == 0) c = T(7); t.push_back(c); } for (int i = 0; i < 40; i++) t.push_back(t[R.below(m)]); for (size_t i = t.size(); i > 1; i--) std::swap(t[i - 1], t[R.below(i)]);
		std::vector<Text> ts(1, t); session(L, ts);
	}
};
template<bool raw> void bigOne(Log& L, size_t n) { // occurrences in a large text, found by searching through it
	typedef cybozu::FMindexT<uint8_t, raw> FM; std::string d = bigData(n, n), t(n, 0); int alpha = R.chance(1, 2) ? 4 : 60; for (size_t i = 0; i < n; i++) t[i] = (char)(1 + (unsigned char)d[i] % alpha + (i % 977 == 0 ? 100 : 0)); L.start(); L.about("big"); FM fm; fm.init(t.begin(), t.end(), 1 + R.below(8)); if (R.chance(1, 2)) { std::stringstream ss; fm.save(ss); FM f2; f2.load(ss); std::stringstream s2; f2.save(s2); fm.load(s2); }
	for (int q = 0; q < 12; q++) { size_t p0 = R.below(n), len = q < 2 ? 1 : q < 4 ? R.below(n / 2) + 1 : 2 + R.below(8); if (p0 + len > n) len = n - p0; std::string k = t.substr(p0, len); if (q % 4 == 3) k[k.size() / 2] = (char)(1 + R.below(alpha)); std::set<size_t> want, got; for (size_t p = t.find(k); p != std::string::npos && want.size() < 3000; p = t.find(k, p + 1)) want.insert(p); size_t b = 0, e = 0, cnt = 0; bool found = fm.getRange(&b, &e, k), same = found == !want.empty(); if (found) { cnt = e - b; if (cnt < 3000) { for (size_t i = b; i < e; i++) got.insert(fm.convertPosition(i)); same = same && got == want; } else same = same && want.size() == 3000;
			std::string pre; size_t row = b + R.below(cnt), pos = fm.convertPosition(row), m = R.below(40); fm.getPrevString(pre, row, m); size_t have = std::min(m, pos); same = same && pre == t.substr(pos - have, have); } bigEvent(L, "find", std::min<size_t>(want.size(), 3000), std::min<size_t>(cnt, 3000), same); }
	L.end(); }
void bigAll(Log& L, const Args& a) { std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 1100000 : 140000); for (size_t i = 0; i < z.size(); i++) { if (R.chance(1, 2)) bigOne<false>(L, z[i]); else bigOne<true>(L, z[i]); } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out);
	std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { int k = R.below(8); if (k < 3) Run<uint8_t, false>::script(L, sc[i]); else if (k < 6) Run<uint8_t, true>::script(L, sc[i]); else Run<uint16_t, false>::script(L, sc[i]); }
	for (int i = 0; i < 50 * a.effort; i++) { int k = R.below(8); if (k < 3) Run<uint8_t, false>::gen(L); else if (k < 6) Run<uint8_t, true>::gen(L); else Run<uint16_t, false>::gen(L); }
	for (int i = 0; i < 2 * a.effort; i++) { Run<uint8_t, false>::wide(L); Run<uint8_t, true>::wide(L); Run<uint16_t, false>::wide(L); Run<uint16_t, true>::gen(L); Run<uint16_t, true>::wide(L); }
	bigAll(L, a);
	return 0;
}
