#include <stdexcept>
#include "verif.hpp"
#include <sstream>
#include <memory>
#include <cybozu/stream.hpp>
using namespace verif;
static Rng *gR;
#define R (*gR)
struct In { virtual ~In() {} virtual size_t some(void*, size_t) = 0; virtual bool exact(void*, size_t, bool flag) = 0; virtual bool ch(char*, bool tag) = 0; virtual int64_t pos() = 0; };
template<class S> struct InT : In {
	S& s; int64_t (*p)(S&);
	InT(S& s, int64_t (*p)(S&)) : s(s), p(p) {}
	size_t some(void *b, size_t n) { return R.chance(1, 2) ? cybozu::readSome(b, n, s) : cybozu::InputStreamTag<S>::readSome(b, n, s); }
	bool exact(void *b, size_t n, bool flag) {
		if (flag) { bool r = R.chance(1, 2); cybozu::read(&r, b, n, s); return r; }
		try { cybozu::read(b, n, s); return true; } catch (cybozu::Exception&) { return false; }
	}
	bool ch(char *c, bool tag) { return tag ? cybozu::InputStreamTag<S>::readChar(c, s) : cybozu::readChar(c, s); }
	int64_t pos() { return p(s); }
};
struct Out { virtual ~Out() {} virtual bool write(const void*, size_t, int how) = 0; virtual int64_t pos() = 0; };
template<class S> struct OutT : Out {
	S& s; int64_t (*p)(S&);
	OutT(S& s, int64_t (*p)(S&)) : s(s), p(p) {}
	bool write(const void *b, size_t n, int how) {
		if (n == 1 && how == 1) { try { cybozu::writeChar(s, *(const char*)b); return true; } catch (cybozu::Exception&) { return false; } }
		if (n == 1 && how == 3) { bool r = R.chance(1, 2); cybozu::writeChar(&r, s, *(const char*)b); return r; }
		if (how >= 2) { bool r = R.chance(1, 2); cybozu::write(&r, s, b, n); return r; }
		try { if (how == 1) cybozu::OutputStreamTag<S>::write(s, b, n); else cybozu::write(s, b, n); return true; } catch (cybozu::Exception&) { return false; }
	}
	int64_t pos() { return p(s); }
};
int64_t pM(cybozu::MemoryInputStream& s) { return s.getPos(); }
int64_t pS(cybozu::StringInputStream& s) { return s.getPos(); }
int64_t pI(std::istringstream& s) { return -1; }
int64_t pR(ShortReader& s) { return s.pos; }
int64_t oM(cybozu::MemoryOutputStream& s) { return s.getPos(); }
int64_t oS(cybozu::StringOutputStream& s) { return s.getPos(); }
int64_t oO(std::ostringstream& s) { return -1; }

// ops: triples kind, size, short size
void session(Log& L, const std::string& data, const std::vector<size_t>& sizes, size_t cap, const std::vector<int>& ops) {
	const char *kinds[] = { "mem", "str", "std", "short" };
	int ik = R.below(4), ok = R.below(3);
	std::vector<char> exact(data.begin(), data.end());
	std::vector<char> obuf(cap);
	std::string ostr; if (ok == 1) ostr = R.chance(1, 2) ? "" : "head";
	std::ostringstream oss;
	cybozu::MemoryInputStream ms(exact.data(), exact.size());
	cybozu::StringInputStream ss(data);
	std::istringstream is(data);
	ShortReader sr(data, sizes);
	cybozu::MemoryOutputStream mo(obuf.data(), cap);
	cybozu::StringOutputStream so(ostr);
	InT<cybozu::MemoryInputStream> a(ms, pM); InT<cybozu::StringInputStream> b(ss, pS); InT<std::istringstream> c(is, pI); InT<ShortReader> d(sr, pR);
	In *in = ik == 0 ? (In*)&a : ik == 1 ? (In*)&b : ik == 2 ? (In*)&c : (In*)&d;
	OutT<cybozu::MemoryOutputStream> oa(mo, oM); OutT<cybozu::StringOutputStream> ob(so, oS); OutT<std::ostringstream> oc(oss, oO);
	Out *out = ok == 0 ? (Out*)&oa : ok == 1 ? (Out*)&ob : (Out*)&oc;
	L.start(J().str("kind", kinds[ik]).str("kindO", kinds[ok]).n("cap", cap).bytes("data", data).bytes("content", ostr).end());
	for (size_t i = 0; i + 2 < ops.size(); i += 3) {
		size_t n = ops[i + 1];
		std::vector<char> buf(n); // exact size: the sanitizer sees any byte too many
		switch (ops[i]) {
		case 0: { L.about("readSome"); size_t r = in->some(buf.data(), n); if (r > n) { L.ev(J("readSome").n("n", n).n("ret", r).raw("out", "[]").n("pos", in->pos())); break; }
			L.ev(J("readSome").n("n", n).n("ret", r).bytes("out", buf.data(), r).n("pos", in->pos())); break; }
		case 1: { L.about("read"); bool f = in->exact(buf.data(), n, R.chance(1, 2)); L.ev(J("read").n("n", n).b("ok", f).bytes("out", buf.data(), f ? n : 0).n("pos", in->pos())); break; }
		case 2: { L.about("readChar"); char *ch = new char(0); bool f = in->ch(ch, R.chance(1, 2)); L.ev(J("readChar").b("ok", f).n("c", (uint8_t)*ch).n("pos", in->pos())); delete ch; break; }
		case 3: { L.about("write"); for (size_t k = 0; k < n; k++) buf[k] = (char)R.u64(); bool f = out->write(buf.data(), n, R.below(4)); L.ev(J("write").bytes("b", buf.data(), n).b("ok", f).n("pos", out->pos())); break; }
		case 4: if (ok == 2) { oss.setstate(std::ios::badbit); L.ev(J("break")); } break;
		}
		if (R.chance(1, 3) || i + 3 >= ops.size()) {
			bool g = std::string(exact.begin(), exact.end()) == data;
			J j("content"); j.b("guard", g);
			if (ok == 0) j.bytes("out", obuf.data(), std::min<size_t>(mo.getPos(), cap)); else if (ok == 1) j.bytes("out", ostr); else j.bytes("out", oss.str());
			L.ev(j);
		}
	}
	L.end();
}
template<class I, class O> void pump(I& is, O& os, size_t chunk) { std::vector<char> b(chunk); for (;;) { size_t n = R.chance(1, 2) ? cybozu::readSome(&b[0], chunk, is) : cybozu::InputStreamTag<I>::readSome(&b[0], chunk, is); if (n == 0 || n > chunk) break; if (R.chance(1, 2)) cybozu::write(os, &b[0], n); else { bool ok; cybozu::write(&ok, os, &b[0], n); if (!ok) break; } } }
template<class O> void into(O& os, const std::string& d, int in, size_t chunk) { switch (in) { case 0: { cybozu::MemoryInputStream is(d.data(), d.size()); pump(is, os, chunk); } break; case 1: { cybozu::StringInputStream is(d); pump(is, os, chunk); } break; case 2: { std::istringstream is(d); pump(is, os, chunk); } break; default: { ShortReader is(d, randomSizes(R)); pump(is, os, chunk); } } }
void bigAll(Log& L, const Args& a) { std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 17000000 : 1100000); for (size_t i = 0; i < z.size(); i++) { size_t n = z[i]; L.start(J().str("kind", "mem").str("kindO", "mem").n("cap", 0).bytes("data", "").bytes("content", "").end()); std::string d = bigData(n, a.seed + n);
	for (int in = 0; in < 4; in++) for (int o = 0; o < 3; o++) { size_t chunk = in == 3 ? 1 + R.below(2000) + n / 50 : n / (1 + R.below(3)) + R.below(100) + 1; std::string out; L.about("big"); if (o == 0) { std::vector<char> b(n + 1); cybozu::MemoryOutputStream os(&b[0], n); into(os, d, in, chunk); out.assign(&b[0], os.getPos()); } else if (o == 1) { cybozu::StringOutputStream os(out); into(os, d, in, chunk); if (os.getPos() != (ssize_t)n) out.clear(); } else { std::ostringstream os; into(os, d, in, chunk); out = os.str(); } bigEvent(L, "pump", n, out.size(), out == d); }
	{ std::string x(n, 0); cybozu::StringInputStream is(d); cybozu::read(&x[0], n, is); bigEvent(L, "read", n, n, x == d); bool thrown = false; char c; try { cybozu::read(&c, 1, is); } catch (std::exception&) { thrown = true; } bigEvent(L, "end", 1, 1, thrown); } L.end(); } }
struct VastIn { Vast *v; size_t readSome(void *p, size_t n) { ssize_t k = v->take(p, n); return k < 0 ? 0 : (size_t)k; } };
struct VastOut { Vast *v; void write(const void *p, size_t n) { if (v->take(p, n) < 0) throw std::runtime_error("vast"); } void write(bool *pb, const void *p, size_t n) { *pb = v->take(p, n) > 0; } };
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out);
	std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) {
		std::vector<size_t> sz; for (size_t k = 0; k + 2 < sc[i].size(); k += 3) if (sc[i][k] == 0) sz.push_back(sc[i][k + 2]);
		std::string data; for (int k = 1; k <= 3; k++) data += char(10 + k);
		session(L, data, sz, 3, sc[i]);
	}
	for (int i = 0; i < 1500 * a.effort; i++) {
		std::string data; size_t n = R.chance(1, 8) ? 0 : R.below(R.chance(1, 5) ? 400 : 30); for (size_t k = 0; k < n; k++) data += (char)R.u64();
		std::vector<int> ops; size_t m = 1 + R.below(14);
		size_t cap = R.below(R.chance(1, 4) ? 300 : 20);
		for (size_t k = 0; k < m; k++) {
			int o = R.below(20); o = o < 6 ? 0 : o < 10 ? 1 : o < 12 ? 2 : o < 19 ? 3 : 4;
			ops.push_back(o); ops.push_back(R.chance(1, 6) ? 1 : R.chance(1, 10) ? n + R.below(3) : R.below(o == 3 ? 9 : 12 + n / 3)); ops.push_back(0);
		}
		session(L, data, randomSizes(R), cap, ops);
	}
	bigAll(L, a);
	for (size_t i = 0; i < 7; i++) if (a.mine(i)) for (int k = 0; k < 3; k++) { size_t n = Vast::size(i); L.start(J().str("kind", "mem").str("kindO", "mem").n("cap", 0).bytes("data", "").bytes("content", "").end()); L.about("vast"); bool ok = true;
		{ Vast v(n, Vast::part(k)); VastIn is = { &v }; try { if (k == 1) cybozu::read(&ok, v.p, n, is); else cybozu::read(v.p, n, is); } catch (std::exception&) { ok = false; } vastEvent(L, "read", v, ok); }
		{ Vast v(n, n); VastOut os = { &v }; ok = true; try { if (k == 1) cybozu::write(&ok, os, v.p, n); else cybozu::write(os, v.p, n); } catch (std::exception&) { ok = false; } vastEvent(L, "write", v, ok); }
		if (k == 0) { char *p = (char*)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { L.end(); continue; } // room for more than is written, more asked for than there is
			cybozu::MemoryOutputStream mo(p, n); ok = true; try { mo.write("hello", 5); mo.write(&ok, "world", 5); } catch (std::exception&) { ok = false; } bigEvent(L, "room", 10, (size_t)mo.getPos(), ok && memcmp(p, "helloworld", 10) == 0);
			cybozu::MemoryInputStream mi(p, n); char b[7]; size_t z = mi.readSome(b, 7); bigEvent(L, "head", 7, z, memcmp(b, "hellowo", 7) == 0 && mi.getPos() == 7); cybozu::MemoryInputStream m2("abc", 3); z = m2.readSome(p, n); bigEvent(L, "short", 3, z, memcmp(p, "abc", 3) == 0); std::string t("xyz"); cybozu::StringInputStream s2(t); z = cybozu::readSome(p, n, s2); bigEvent(L, "short", 3, z, memcmp(p, "xyz", 3) == 0); std::istringstream s3("uvw"); z = cybozu::readSome(p, n, s3); bigEvent(L, "short", 3, z, memcmp(p, "uvw", 3) == 0); munmap(p, n); }
		L.end(); }
	return 0;
}
