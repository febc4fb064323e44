#include "verif.hpp"
#include <sstream>
#include <cybozu/base64.hpp>
using namespace verif;
static Rng *gR;
#define R (*gR)
std::string enc(Log& L, const std::string& in, size_t max, int mode, bool& thrown) {
	std::string out; thrown = false; L.about("encode");
	std::vector<size_t> sz = randomSizes(R);
	try {
		cybozu::StringOutputStream os(out);
		if (sz.empty() && R.chance(1, 2)) { std::istringstream is(in); std::ostringstream o2; cybozu::EncodeToBase64(o2, is, max, mode); out = o2.str(); }
		else { ShortReader is(in, sz); cybozu::EncodeToBase64(os, is, max, mode); }
	} catch (cybozu::Exception&) { thrown = true; }
	L.ev(J("enc").bytes("in", in).n("max", max).n("mode", mode).b("thrown", thrown).bytes("out", thrown ? "" : out));
	return out;
}
std::string dec(Log& L, const std::string& t) {
	L.about("decode");
	std::string out; std::vector<size_t> sz = randomSizes(R);
	cybozu::StringOutputStream os(out);
	if (sz.empty()) { std::istringstream is(t); std::ostringstream o2; cybozu::DecodeFromBase64(o2, is); out = o2.str(); }
	else { ShortReader is(t, sz); cybozu::DecodeFromBase64(os, is); }
	return out;
}
void both(Log& L, const std::string& in, size_t max, int mode) {
	bool thrown; std::string t = enc(L, in, max, mode, thrown);
	if (thrown) return;
	std::string b = dec(L, t); L.ev(J("back").bytes("orig", in).bytes("out", b));
}
void inc(Log& L, const std::string& t) { // decoder fed in pieces
	std::string out; cybozu::StringOutputStream os(out); cybozu::Base64Decoder<cybozu::StringOutputStream> d(os);
	size_t p = 0;
	while (p < t.size()) {
		size_t n = 1 + R.below(R.chance(1, 3) ? 3 : t.size()); if (n > t.size() - p) n = t.size() - p;
		std::vector<char> x(t.begin() + p, t.begin() + p + n);
		L.about("feed"); ssize_t r = d.write(x.data(), n); L.ev(J("feed").bytes("s", x.data(), n).n("ret", r)); p += n;
		if (R.chance(1, 4)) { L.about("flush"); d.flush(); L.ev(J("flush").bytes("out", out)); }
	}
	d.flush(); L.ev(J("flush").bytes("out", out));
}
// large inputs: the text is that of the 12-byte pieces one after the other (checked small above), cut into lines, and decodes to the input
void bigAll(Log& L, const Args& a) { std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 4200000 : 300000); for (size_t i = 0; i < z.size(); i++) { size_t n = z[i]; L.start(); L.about("big"); std::string d = bigData(n, a.seed + n), want, got, back; size_t max = R.chance(1, 3) ? 0 : 4 * (1 + R.below(32)); int mode = R.below(2);
	for (size_t p = 0; p < n; p += 12) { std::string q, piece = d.substr(p, 12); cybozu::StringInputStream is(piece); cybozu::StringOutputStream os(q); cybozu::EncodeToBase64(os, is, 0, mode); want += q; } { ShortReader is(d, randomSizes(R)); cybozu::StringOutputStream os(got); cybozu::EncodeToBase64(os, is, max, mode); }
	{ ShortReader is(got, randomSizes(R)); cybozu::StringOutputStream os(back); cybozu::DecodeFromBase64(os, is); } bigEvent(L, "decoded", n, back.size(), back == d); std::string plain, nl = mode == cybozu::base64::useCRLF ? "\r\n" : "\n"; bool lines = true; if (max) { size_t p = 0; while (p < got.size()) { size_t e = got.find(nl, p); if (e == std::string::npos || e == p || (e - p != max && e + nl.size() != got.size()) || e - p > max) { lines = false; break; } plain += got.substr(p, e - p); p = e + nl.size(); } } else plain = got; bigEvent(L, "encoded", want.size(), plain.size(), plain == want && lines);
	L.end(); } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out);
	std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) {
		std::string t; for (size_t k = 2; k < sc[i].size(); k++) t += (char)sc[i][k];
		L.start(); both(L, t, sc[i][0], sc[i][1]); L.end();
	}
	for (int k = a.shard; k < 256; k += a.shards) { // every byte value at every place of a group, every character
		L.start(); for (int z = 0; z < 4; z++) { std::string s(z, 'x'); s += (char)k; both(L, s, 76, 1); both(L, s + "q", 0, 0); }
		std::string c = "QUJDREVG"; for (int z = 0; z < 5; z++) { std::string t = c; t.insert(z, 1, (char)k); std::string o = dec(L, t); L.ev(J("dec").bytes("in", t).bytes("out", o)); }
		L.end();
	}
	for (size_t max = a.shard; max <= 300; max += a.shards) { std::string s; for (int k = 0; k < 200; k++) s += (char)R.u64(); L.start(); for (int m = 0; m < 3; m++) both(L, s, max, m); L.end(); }
	for (int i = 0; i < 500 * a.effort; i++) {
		std::string s; size_t n = R.chance(1, 12) ? 760 + R.below(20) : R.chance(1, 12) ? 1020 + R.below(10) : R.chance(1, 20) ? R.below(4000) : R.below(130); for (size_t k = 0; k < n; k++) s += (char)R.u64();
		L.start(); both(L, s, 4 * R.below(33), R.below(3)); L.end();
	}
	for (int i = 0; i < 400 * a.effort; i++) {
		std::string t; size_t n = R.chance(1, 10) ? 1300 + R.below(200) : R.below(60); static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
		for (size_t k = 0; k < n; k++) t += R.chance(1, 12) ? (char)R.u64() : R.chance(1, 15) ? "=\r\n -_"[R.below(6)] : al[R.below(64)];
		L.start(); if (R.chance(1, 2)) inc(L, t); else { std::string o = dec(L, t); L.ev(J("dec").bytes("in", t).bytes("out", o)); } L.end();
	}
	bigAll(L, a);
	return 0;
}
