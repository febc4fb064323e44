#include "verif.hpp"
#include <sstream>
#include <list>
#include <deque>
#include <cybozu/csv.hpp>
using namespace verif;
static Rng *gR;
#define R (*gR)
typedef std::vector<std::string> Rec;
static const char seps[] = { ',', '\t', ';', ' ' };
template<class C, class Rd> bool reads(Log& L, Rd& rd, size_t calls) {
	C out; if (R.chance(1, 2)) out.push_back("old");
	for (size_t i = 0; i < calls; i++) {
		L.about("read");
		int ret; try { ret = rd.read(out) ? 1 : 0; } catch (cybozu::Exception&) { ret = 2; }
		J j("read"); j.n("ret", ret); if (ret == 1) j.raw("fs", jbytesList(std::vector<std::string>(out.begin(), out.end()))); L.ev(j);
		if (ret == 2) return false;
		if (ret == 0 && R.chance(1, 2)) break;
	}
	return true;
}
template<class Rd> void readAll(Log& L, Rd& rd, size_t calls) {
	switch (R.below(3)) { case 0: reads<std::list<std::string> >(L, rd, calls); break; case 1: reads<std::deque<std::string> >(L, rd, calls); break; default: reads<Rec>(L, rd, calls); }
}
template<size_t LIM> void readLim(Log& L, const std::string& t, char sep, const std::vector<size_t>& sz) {
	size_t calls = 3 + std::count(t.begin(), t.end(), '\n');
	if (sz.empty() && R.chance(1, 2)) { std::istringstream is(t); cybozu::CsvReaderT<std::istringstream, LIM> rd(is, sep); readAll(L, rd, calls); }
	else if (sz.empty()) { cybozu::StringInputStream is(t); cybozu::CsvReaderT<cybozu::StringInputStream, LIM> rd(is, sep); readAll(L, rd, calls); }
	else { ShortReader is(t, sz); cybozu::CsvReaderT<ShortReader, LIM> rd(is, sep); readAll(L, rd, calls); }
}
static const size_t big = 10 * 1024 * 1024;
void readTop(Log& L, const std::string& t, char sep, size_t lim, bool file) {
	if (file) {
		FILE *fp = fopen("t.csv", "wb"); fwrite(t.data(), 1, t.size(), fp); fclose(fp);
		cybozu::CsvReader rd("t.csv", sep); readAll(L, rd, 3 + std::count(t.begin(), t.end(), '\n'));
		return;
	}
	std::vector<size_t> sz = randomSizes(R);
	if (lim == 5) readLim<5>(L, t, sep, sz); else if (lim == 20) readLim<20>(L, t, sep, sz); else readLim<big>(L, t, sep, sz);
}
std::string field(char sep) {
	std::string s; size_t n = R.chance(1, 3) ? 0 : R.chance(1, 20) ? 50 + R.below(1200) : R.below(8);
	for (size_t i = 0; i < n; i++) { const char *p[] = { "a", "\"", "\n", "\r", "\xe3\x81\x82", " ", ",", "\t", ";", "z", "\xf0\x9f\x98\x80", "=" }; size_t k = R.below(14); if (k >= 12) s += sep; else s += p[k]; }
	return s;
}
void bigAll(Log& L, const Args& a) { std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 1100000 : 140000); for (size_t i = 0; i < z.size(); i++) { size_t n = z[i]; L.start(J().n("sep", ',').n("limit", big).end()); L.about("big");
	for (int rep = 0; rep < 3; rep++) { std::vector<Rec> t; if (rep == 0) { for (size_t k = 0; k < n / 4; k++) { Rec r; for (size_t q = 0; q < 1 + k % 3; q++) r.push_back(std::string(q + k % 2, "a\",\n"[(k + q) % 4])); t.push_back(r); } } else if (rep == 1) { Rec r; for (size_t k = 0; k < n; k++) r.push_back(std::string(k % 3, "x\"y,"[k % 4])); t.push_back(r); t.push_back(Rec(1, "z")); } else { Rec r; r.push_back(std::string(n, 'q')); std::string s(n, 'x'); for (size_t k = 0; k < n; k += 3) s[k] = "\",\n\t"[k % 4]; r.push_back(s); r.push_back("end"); t.push_back(r); t.push_back(Rec(2, "z")); }
		std::string text; { cybozu::StringOutputStream os(text); cybozu::CsvWriterT<cybozu::StringOutputStream> w(os, ','); for (size_t k = 0; k < t.size(); k++) w.write(t[k].begin(), t[k].end()); } std::vector<Rec> got; bool same = true; Rec r; try { if (rep == 0 || R.chance(1, 2)) { ShortReader is(text, randomSizes(R)); cybozu::CsvReaderT<ShortReader, big> rd(is, ','); while (rd.read(r)) { got.push_back(r); if (got.size() > t.size()) break; } } else { FILE *fp = fopen("b.csv", "wb"); fwrite(text.data(), 1, text.size(), fp); fclose(fp); cybozu::CsvReader rd("b.csv", ','); while (rd.read(r)) { got.push_back(r); if (got.size() > t.size()) break; } } } catch (std::exception&) { same = false; } bigEvent(L, rep == 0 ? "rows" : rep == 1 ? "columns" : "field", t.size(), got.size(), same && got == t); }
	L.end(); } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out);
	std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) {
		std::string t; for (int k = 0; k < sc[i][0]; k++) t += (char)sc[i][1 + k];
		L.start(J().n("sep", ',').n("limit", R.chance(1, 6) ? 5 : big).end());
		L.drop();
		size_t lim = R.chance(1, 6) ? 5 : big;
		L.start(J().n("sep", ',').n("limit", lim).end());
		L.ev(J("text").bytes("s", t));
		readTop(L, t, ',', lim, false);
		L.end();
	}
	for (int c = 0; c < 256; c++) if (a.mine(c)) { // what may separate
		char sep = (char)c; bool rd = true, wr = true, file = true; L.start(J().n("sep", ',').n("limit", big).end()); L.about("separator");
		std::string t = "a"; cybozu::StringInputStream is(t); std::string o; cybozu::StringOutputStream os(o);
		try { cybozu::CsvReaderT<cybozu::StringInputStream> x(is, sep); } catch (std::exception&) { rd = false; }
		try { cybozu::CsvWriterT<cybozu::StringOutputStream> x(os, sep); } catch (std::exception&) { wr = false; }
		try { cybozu::CsvWriter x("s.csv", sep); } catch (std::exception&) { file = false; }
		L.ev(J("sep").n("c", c).b("rd", rd).b("wr", wr).b("file", file)); L.end();
	}
	for (int i = 0; i < 900 * a.effort; i++) { // written tables
		char sep = seps[R.below(4)]; size_t lim = R.chance(1, 4) ? 20 : big;
		L.start(J().n("sep", sep).n("limit", lim).end());
		std::string text; size_t n = R.below(6);
		bool file = lim == big && R.chance(1, 6);
		{
			cybozu::StringOutputStream os(text); cybozu::CsvWriterT<cybozu::StringOutputStream> w(os, sep);
			std::ostringstream oss; cybozu::CsvWriterT<std::ostringstream> w2(oss, sep);
			bool two = R.chance(1, 2);
			cybozu::CsvWriter *fw = file ? new cybozu::CsvWriter("w.csv", sep) : 0;
			for (size_t k = 0; k < n; k++) {
				Rec v; size_t m = R.below(5); for (size_t q = 0; q < m; q++) v.push_back(field(sep));
				size_t before = text.size();
				L.about("write");
				if (fw) fw->write(v.begin(), v.end());
				if (two) { w2.write(v.begin(), v.end()); text = oss.str(); }
				else if (R.chance(1, 2)) { std::list<std::string> l(v.begin(), v.end()); w.write(l.begin(), l.end()); } else w.write(v.begin(), v.end());
				L.ev(J("write").raw("fs", jbytesList(v)).bytes("out", text.substr(before)));
			}
			delete fw;
		}
		if (file) {
			text.clear(); FILE *fp = fopen("w.csv", "rb"); char b[4096]; size_t k; while ((k = fread(b, 1, sizeof(b), fp)) > 0) text.append(b, k); fclose(fp);
		}
		readTop(L, text, sep, lim, file && R.chance(1, 2));
		L.end();
	}
	for (int i = 0; i < 1200 * a.effort; i++) { // random texts
		char sep = seps[R.below(4)]; size_t lim = R.chance(1, 4) ? 20 : R.chance(1, 5) ? 5 : big;
		std::string t; size_t n = R.below(R.chance(1, 8) ? 3000 : 60);
		int qrate = R.below(3);
		for (size_t k = 0; k < n; k++) { size_t c = R.below(16); t += c == 0 && qrate ? (R.chance(1, 2) ? "\"" : "\"\"") : c == 1 ? "\n" : c == 2 ? "\r\n" : c <= 5 ? std::string(1, sep) : c == 6 && qrate == 2 ? "\"x y\"" : c == 7 ? "\xe3\x81\x82" : std::string(1, 'a' + c); }
		L.start(J().n("sep", sep).n("limit", lim).end());
		L.ev(J("text").bytes("s", t));
		readTop(L, t, sep, lim, lim == big && R.chance(1, 10));
		L.end();
	}
	bigAll(L, a);
	return 0;
}
