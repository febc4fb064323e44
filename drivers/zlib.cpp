// P21: compressor and decompressor streams
#include <string.h>
#include <sstream>
#include <cybozu/zlib.hpp>
#include "verif.hpp"
using namespace verif;
typedef std::string S; typedef std::vector<S> SV;
static Rng *gR;
#define R (*gR)
// underlying streams: short reads in any pattern
struct In { S d; size_t p; int mode; In(const S& s, int m) : d(s), p(0), mode(m) {} size_t readSome(void *b, size_t n) { if (n > d.size() - p) n = d.size() - p; if (n > 1 && mode) n = mode == 1 ? 1 : 1 + R.below(n); memcpy(b, d.data() + p, n); p += n; return n; } };
struct Out { S d; void write(const void *p, size_t n) { d.append((const char*)p, n); } };
bool ref(const S& c, bool gz, S& dec, int& left) { // reference decoder
	z_stream z; memset(&z, 0, sizeof(z)); if (inflateInit2(&z, gz ? 16 + MAX_WBITS : MAX_WBITS) != Z_OK) return false; z.next_in = (Bytef*)c.data(); z.avail_in = (uInt)c.size(); dec.clear(); char b[4096]; int r;
	do { z.next_out = (Bytef*)b; z.avail_out = sizeof(b); r = inflate(&z, Z_NO_FLUSH); dec.append(b, sizeof(b) - z.avail_out); if (r == Z_BUF_ERROR && z.avail_in == 0) break; } while (r == Z_OK); left = (int)z.avail_in; inflateEnd(&z); return r == Z_STREAM_END;
}
S refGz(const S& m) { // a gzip file with optional header fields
	z_stream z; memset(&z, 0, sizeof(z)); deflateInit2(&z, R.below(10), Z_DEFLATED, 16 + MAX_WBITS, 8, Z_DEFAULT_STRATEGY); gz_header h; memset(&h, 0, sizeof(h)); static Bytef extra[300]; static char nm[] = "name.txt", cm[] = "a comment"; memset(extra, R.below(2), sizeof(extra)); h.text = R.below(2); h.os = 3; if (R.chance(1, 2)) { h.extra = extra; h.extra_len = R.chance(1, 3) ? 0 : R.below(300); } if (R.chance(1, 2)) h.name = (Bytef*)(nm + R.below(9)); if (R.chance(1, 2)) h.comment = (Bytef*)(cm + R.below(10)); h.hcrc = R.below(2); deflateSetHeader(&z, &h);
	S o(deflateBound(&z, m.size()) + 1000, 0); z.next_in = (Bytef*)m.data(); z.avail_in = (uInt)m.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = (uInt)o.size(); deflate(&z, Z_FINISH); o.resize(o.size() - z.avail_out); deflateEnd(&z); return o;
}
S rnd(size_t n) { S s(n, 0); int k = R.below(4); for (size_t i = 0; i < n; i++) s[i] = k == 0 ? 'a' : k == 1 ? char('a' + R.below(3)) : char(R.u64()); return s; }
struct Rd { SV sizes; };
template<class D> void readLoop(Log& L, D& d, const std::vector<size_t>& ks, bool exact) {
	for (size_t i = 0; i < 400000; i++) {
		size_t k = ks[i % ks.size()]; bool x = exact && R.chance(1, 3); char *b = (char*)malloc(k ? k : 1); bool th = false; size_t n = 0; L.about(x ? "read" : "readSome");
		try { if (x) { d.read(b, k); n = k; } else n = d.readSome(b, k); } catch (std::exception&) { th = true; }
		L.ev(J(x ? "xrd" : "rd").n("k", k).bytes("r", S(b, n <= k ? n : 0)).b("thrown", th || n > k)); free(b); if (th || n > k) break;
		bool end = !x && k > 0 && n == 0; if (end || R.chance(1, 4)) L.ev(J("empty").b("r", d.isEmpty()).b("after0", end)); if (end && R.chance(1, 2)) { break; } if (end && R.chance(1, 2)) continue; if (end) break;
	}
}
template<size_t B> void decode(Log& L, const S& c, bool gz, const char *kind, const std::vector<size_t>& ks, bool exact) {
	L.ev(J("open").str("kind", kind)); int k = R.below(3);
	if (k == 0) { std::istringstream is(c); cybozu::ZlibDecompressorT<std::istringstream, B> d(is, gz); readLoop(L, d, ks, exact); }
	else if (k == 1) { cybozu::MemoryInputStream is(c.data(), c.size()); cybozu::ZlibDecompressorT<cybozu::MemoryInputStream, B> d(is, gz); readLoop(L, d, ks, exact); }
	else { In is(c, R.below(3)); cybozu::ZlibDecompressorT<In, B> d(is, gz); readLoop(L, d, ks, exact); }
}
template<class St, size_t B> void encode(Log& L, St& os, bool gz, const SV& ws, int level) {
	L.about("compress"); bool fl; { cybozu::ZlibCompressorT<St, B> c(os, gz, level); for (size_t i = 0; i < ws.size(); i++) { if (R.chance(1, 2)) c.write(ws[i].data(), ws[i].size()); else cybozu::write(c, ws[i].data(), ws[i].size()); L.ev(J("w").bytes("data", ws[i])); } fl = R.chance(1, 2); if (fl) { c.flush(); if (R.chance(1, 3)) c.flush(); } } L.ev(J("fin"));
}
template<size_t BC, size_t BD> void session(Log& L, const SV& ws, const std::vector<size_t>& ks, int fault, bool gz, bool alien) {
	L.start(); S c; int level = R.chance(1, 2) ? Z_DEFAULT_COMPRESSION : (int)R.below(10); S all; for (size_t i = 0; i < ws.size(); i++) all += ws[i];
	if (alien) { for (size_t i = 0; i < ws.size(); i++) L.ev(J("w").bytes("data", ws[i])); L.ev(J("fin")); if (gz) c = refGz(all); else { uLongf n = compressBound(all.size()) + 16; c.resize(n); compress2((Bytef*)&c[0], &n, (const Bytef*)all.data(), all.size(), level); c.resize(n); } }
	else { int k = R.below(3); if (k == 0) { std::ostringstream os; encode<std::ostringstream, BC>(L, os, gz, ws, level); c = os.str(); } else if (k == 1) { cybozu::StringOutputStream os(c); encode<cybozu::StringOutputStream, BC>(L, os, gz, ws, level); } else { Out os; encode<Out, BC>(L, os, gz, ws, level); c = os.d; } S dec; int left = -1; bool ok = ref(c, gz, dec, left); L.ev(J("out").bytes("dec", dec).n("left", left).b("ok", ok)); }
	if (R.chance(1, 2) || fault == 0) decode<BD>(L, c, gz, "good", ks, true);
	if (R.chance(1, 3)) { S c2 = c + rnd(1 + R.below(20)); decode<BD>(L, c2, gz, "good", ks, true); } // something else behind it
	int rounds = fault == 0 ? 0 : 1 + R.below(3);
	while (rounds--) {
		if (fault == 1) { size_t n = R.chance(1, 2) ? c.size() - 1 - R.below(10) : R.below(c.size()); if (n >= c.size()) n = 0; decode<BD>(L, c.substr(0, n), gz, "cut", ks, false); }
		else { S d = c; size_t p = R.chance(1, 3) ? c.size() - 1 - R.below(8) : R.below(c.size()); if (p >= c.size()) p = 0; d[p] ^= char(1 << R.below(8)); decode<BD>(L, d, gz, "flip", ks, false); }
	}
	L.end();
}
void any(Log& L, const SV& ws, const std::vector<size_t>& ks, int fault, bool alien) {
	bool gz = R.chance(1, 2);
	switch (R.below(6)) { case 0: session<1, 1>(L, ws, ks, fault, gz, alien); break; case 1: session<2, 3>(L, ws, ks, fault, gz, alien); break; case 2: session<7, 1>(L, ws, ks, fault, gz, alien); break; case 3: session<16, 16>(L, ws, ks, fault, gz, alien); break; case 4: session<2048, 2048>(L, ws, ks, fault, gz, alien); break; default: session<3, 2048>(L, ws, ks, fault, gz, alien); }
}
void oneShot(Log& L) {
	L.start(); for (int i = 0; i < 6; i++) {
		S m = rnd(R.below(200)); size_t bound = compressBound(m.size()); S full(bound, 0); uLongf need = bound; int level = R.below(10); compress2((Bytef*)&full[0], &need, (const Bytef*)m.data(), m.size(), level);
		size_t max = R.chance(1, 2) ? bound : need + 3 - R.below(7) ; char *o = (char*)malloc(max + 1); L.about("ZlibCompress"); size_t r = cybozu::ZlibCompress(o, max, m.data(), m.size(), level); S c(o, r <= max ? r : 0); free(o); S dec; int left = 0; bool ok = r > 0 && r <= max && ref(c, false, dec, left) && left == 0;
		L.ev(J("zc").bytes("m", m).n("max", max).n("need", need).n("r", r).b("ok", ok).bytes("dec", dec)); if (r == 0) c = full.substr(0, need);
		const char *kind = "good"; int f = R.below(4); if (f == 0) { kind = "cut"; c.resize(R.below(c.size())); } else if (f == 1) { kind = "flip"; c[R.below(c.size())] ^= char(1 << R.below(8)); }
		max = R.chance(1, 3) ? m.size() : R.chance(1, 2) ? m.size() + R.below(9) : R.below(m.size() + 1); o = (char*)malloc(max + 1); bool th = false; r = 0; L.about("ZlibUncompress"); try { r = cybozu::ZlibUncompress(o, max, c.data(), c.size()); } catch (std::exception&) { th = true; }
		L.ev(J("zu").str("kind", kind).bytes("m", m).n("max", max).bytes("r", S(o, r <= max ? r : 0)).b("thrown", th)); free(o);
	} L.end();
}
template<size_t BC, size_t BD> void bigOne(Log& L, size_t n, bool gz) { // one large write, or many; read back in one call or many
	L.start(); L.about("big"); S m = n > 3000000 ? S(n, 'a') : bigData(n, R.u64()); if (n % 2) for (size_t i = 0; i < n; i += 1 + i % 5) m[i] = 'a'; int how = R.below(3);
	S c; { cybozu::StringOutputStream os(c); cybozu::ZlibCompressorT<cybozu::StringOutputStream, BC> z(os, gz, 1); if (how == 0) z.write(m.data(), n); else { size_t p = 0, st = how == 1 ? 65536 + R.below(3) : n / 3 + R.below(1000); while (p < n) { size_t k = n - p < st ? n - p : st; z.write(m.data() + p, k); p += k; } } z.flush(); }
	S r(n + 100, 0); { z_stream s; memset(&s, 0, sizeof(s)); inflateInit2(&s, gz ? 16 + MAX_WBITS : MAX_WBITS); s.next_in = (Bytef*)&c[0]; s.avail_in = (uInt)c.size(); s.next_out = (Bytef*)&r[0]; s.avail_out = (uInt)r.size(); int e = inflate(&s, Z_FINISH); size_t got = s.total_out; bool ok = e == Z_STREAM_END && s.avail_in == 0; inflateEnd(&s); r.resize(got); bigEvent(L, "compress", n, got, ok && r == m); }
	{ cybozu::StringInputStream is(c); bool ok = true; S d(n + 100, 0); size_t got = 0; try { cybozu::ZlibDecompressorT<cybozu::StringInputStream, BD> z(is, gz); if (R.chance(1, 2)) { z.read(&d[0], n); got = n; if (z.readSome(&d[got], 100)) ok = false; } else for (;;) { size_t k = z.readSome(&d[got], R.chance(1, 2) ? d.size() - got : 1 + R.below(d.size() - got)); if (k == 0) break; got += k; if (got >= d.size()) break; } } catch (std::exception&) { ok = false; } d.resize(got); bigEvent(L, "decompress", n, got, ok && d == m); }
	{ S o(compressBound(n), 0); size_t k = cybozu::ZlibCompress(&o[0], o.size(), m.data(), n, 1); S d(n + 10, 0); size_t got = 0; bool ok = true; try { got = cybozu::ZlibUncompress(&d[0], R.chance(1, 2) ? n : n + 10, o.data(), k); } catch (std::exception&) { ok = false; } d.resize(got); bigEvent(L, "oneshot", n, got, ok && d == m); }
	L.end(); }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out);
	std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { SV ws; std::vector<size_t> ks; size_t p = 0; for (; p < sc[i].size() && sc[i][p] != 9; p++) ws.push_back(rnd(sc[i][p] == 2 && R.chance(1, 2) ? 2 + R.below(60) : sc[i][p])); for (p++; p + 1 < sc[i].size(); p++) ks.push_back(sc[i][p] == 2 && R.chance(1, 2) ? 2 + R.below(60) : sc[i][p]); if (ks.empty()) ks.push_back(1 + R.below(9)); any(L, ws, ks, sc[i].back(), false); }
	for (int i = 0; i < 120 * a.effort; i++) { SV ws; std::vector<size_t> ks; int n = R.below(5); bool big = R.chance(1, 40); while (n--) ws.push_back(rnd(R.chance(1, 6) ? 0 : R.below(big ? 6000 : 120))); n = 1 + R.below(4); while (n--) ks.push_back(big ? 500 + R.below(3000) : R.chance(1, 8) ? 0 : 1 + R.below(R.chance(1, 2) ? 5 : 200)); bool z = true; for (size_t k = 0; k < ks.size(); k++) if (ks[k]) z = false; if (z) ks.push_back(3); any(L, ws, ks, R.below(3), R.chance(1, 4)); }
	for (int i = 0; i < 30 * a.effort; i++) oneShot(L);
	std::vector<size_t> z = bigSizes(a, 20000000); for (size_t i = 0; i < z.size(); i++) { if (z[i] < 100000) { bigOne<7, 3>(L, z[i], R.chance(1, 2)); bigOne<100000, 70000>(L, z[i], R.chance(1, 2)); } for (int g = 0; g < 2; g++) bigOne<2048, 2048>(L, z[i], g); }
	return 0;
}
