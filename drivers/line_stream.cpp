#include "verif.hpp"
#include <sstream>
#include <cybozu/line_stream.hpp>
#include <cybozu/stream.hpp>
using namespace verif;
static Rng *gR;
#define R (*gR)
template<class Rd> void session(Log& L, Rd& rd, const std::string& text, size_t max, size_t (*pos)(Rd&)) {
	L.start(J().bytes("text", text).n("max", max).end());
	{
	cybozu::LineStreamT<Rd> ls(rd, max);
	bool usePtr = R.chance(1, 2);
	for (size_t calls = 0; calls < text.size() + 3; calls++) {
		if (R.chance(1, 6)) { std::string s = ls.getRemain(); L.ev(J("remain").bytes("s", s).n("rpos", pos(rd))); }
		L.about("next");
		int ret; std::string line = R.chance(1, 2) ? "old" : "";
		try {
			if (usePtr) { const char *b, *e; ret = ls.next(&b, &e); if (ret) line.assign(b, e); }
			else ret = ls.next(line);
		} catch (cybozu::Exception&) { ret = 2; }
		J j("next"); j.n("ret", ret); if (ret == 1) j.bytes("line", line); L.ev(j);
		if (ret == 2) break;
		if (ret == 0 && R.chance(1, 2)) break;
	}
	}
	L.end();
}
size_t pR(ShortReader& r) { return r.pos; }
size_t pS(cybozu::StringInputStream& r) { return r.getPos(); }
void any(Log& L, const std::string& text, size_t max, const std::vector<size_t>& sizes) {
	if (sizes.empty() && R.chance(1, 2)) { cybozu::StringInputStream is(text); session(L, is, text, max, pS); return; }
	ShortReader rd(text, sizes); session(L, rd, text, max, pR);
}
void bigAll(Log& L, const Args& a) { std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 1100000 : 140000); for (size_t i = 0; i < z.size(); i++) { size_t n = z[i]; L.start(J().bytes("text", "").n("max", 2048).end()); L.about("big"); 
	for (int rep = 0; rep < 2; rep++) { std::vector<std::string> ls; std::string t; if (rep == 0) for (size_t k = 0; k < n / 4; k++) ls.push_back(std::string(k % 7, (char)('a' + k % 26))); else for (size_t k = 0; k < 4; k++) ls.push_back(std::string(k == 1 ? n : k == 2 ? n - 1 : k, (char)('a' + k))); for (size_t k = 0; k < ls.size(); k++) t += ls[k] + (k % 3 ? "\n" : "\r\n"); ShortReader rd(t, randomSizes(R)); cybozu::LineStreamT<ShortReader> l(rd, rep == 0 ? 64 : n + 2); std::vector<std::string> got; std::string x; bool same = true; try { while (l.next(x)) { got.push_back(x); if (got.size() > ls.size()) break; } } catch (std::exception&) { same = false; } bigEvent(L, rep ? "long" : "many", ls.size(), got.size(), same && got == ls); }
	L.end(); } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out);
	std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) {
		const std::vector<int>& v = sc[i]; std::string t; for (int k = 0; k < v[1]; k++) t += (char)v[2 + k];
		std::vector<size_t> sz; for (size_t k = 2 + v[1]; k < v.size(); k++) sz.push_back(v[k]);
		any(L, t, v[0], sz);
	}
	for (int i = 0; i < 2500 * a.effort; i++) {
		size_t max = 2 + R.below(R.chance(1, 3) ? 60 : 8);
		std::string t; size_t lines = R.below(9);
		for (size_t k = 0; k < lines; k++) {
			size_t n = R.chance(1, 3) ? max - R.below(2) : R.chance(1, 25) ? max + 1 + R.below(2 * max + 3) : R.below(max + 1);
			for (size_t q = 0; q < n; q++) { int c = R.below(30); t += c == 0 ? '\r' : c == 1 ? '\0' : c == 2 ? (char)0xff : (char)('a' + c % 26); }
			int e = R.below(10); if (e < 4) t += "\n"; else if (e < 8) t += "\r\n"; else if (e == 8) t += "\r\r\n"; else if (k + 1 == lines) t += R.chance(1, 2) ? "" : "\r";
			else t += "\n\n";
		}
		any(L, t, max, randomSizes(R));
	}
	// default limit
	for (int i = 0; i < 6 * a.effort; i++) {
		std::string t; for (int k = 0; k < 6; k++) { size_t n = R.chance(1, 3) ? 2046 + R.below(4) : R.below(700); t += std::string(n, 'q'); t += R.chance(1, 2) ? "\r\n" : "\n"; }
		any(L, t, 2048, randomSizes(R));
	}
	bigAll(L, a);
	return 0;
}
