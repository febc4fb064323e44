// P20: digests, HMAC, SipHash, AES. BUILTIN: the implementation without OpenSSL
#include <string.h>
#include <string>
#include <iostream>
#include <cybozu/exception.hpp>
#include <cybozu/sha1.hpp>
#include <cybozu/sha2.hpp>
#include <cybozu/siphash.hpp>
#ifndef CYBOZU_DONT_USE_OPENSSL
#include <cybozu/crypto.hpp>
#endif
#include "verif.hpp"
using namespace verif;
typedef std::string S; typedef std::vector<S> SV;
static Rng *gR;
#define R (*gR)
S rnd(size_t n) { S s(n, 0); int k = R.below(4); for (size_t i = 0; i < n; i++) s[i] = k == 0 ? 0 : k == 1 ? char(0xff) : char(R.u64()); return s; }
// a copy at an odd address, exactly sized
struct B { char *p; size_t n; explicit B(const S& s) : p((char*)malloc(s.size() + 1)), n(s.size()) { memcpy(p + 1, s.data(), n); } ~B() { free(p); } const char *d() const { return p + 1; } };
struct O { virtual ~O() {} virtual void up(const S& s) = 0; virtual S dg(const S& last) = 0; virtual void reset() = 0; virtual bool again() = 0; };
struct O1 : O { cybozu::Sha1 h; void up(const S& s) { if (R.chance(1, 2)) h.update(s); else { B b(s); h.update(b.d(), b.n); } } S dg(const S& l) { if (l.empty() && R.chance(1, 2)) return h.digest(); if (R.chance(1, 2)) { B b(l); S r = h.digest(b.d(), b.n); char o[20]; h.get(o); if (r != S(o, 20)) return "get differs"; S x; char t[3]; for (int i = 0; i < 20; i++) { snprintf(t, 3, "%02x", (unsigned char)o[i]); x += t; } if (x != h.toString()) return "text differs"; return r; } return h.digest(l); } void reset() { h = cybozu::Sha1(); } bool again() { return true; } };
template<class H, int N> struct O2 : O { H h; void up(const S& s) { if (R.chance(1, 2)) h.update(s); else { B b(s); h.update(b.d(), b.n); } } S dg(const S& l) { if (R.chance(1, 3)) return h.digest(l); B b(l); if (R.chance(1, 2)) return h.digest(b.d(), b.n); size_t room = R.chance(1, 2) ? N : N + 7; std::vector<char> o(room, 0x55); size_t r = h.digest(&o[0], room, b.d(), b.n); for (size_t i = N; i < room; i++) if (o[i] != 0x55) return "overrun"; return S(&o[0], r); } void reset() { h.clear(); } bool again() { return false; } };
#ifndef CYBOZU_DONT_USE_OPENSSL
typedef cybozu::crypto::Hash Hash;
Hash::Name nm(int alg) { switch (alg) { case 1: return Hash::N_SHA1; case 224: return Hash::N_SHA224; case 256: return Hash::N_SHA256; case 384: return Hash::N_SHA384; default: return Hash::N_SHA512; } }
struct O3 : O { Hash h; int alg; explicit O3(int a) : h(nm(a)), alg(a) {} void up(const S& s) { if (R.chance(1, 2)) h.update(s); else { B b(s); h.update(b.d(), b.n); } } S dg(const S& l) { if (l.empty() && R.chance(1, 2)) return h.digest(); if (R.chance(1, 3)) return h.digest(l); B b(l); if (R.chance(1, 2)) return h.digest(b.d(), b.n); S o(Hash::getSize(nm(alg)), 0); h.digest(&o[0], b.d(), b.n); return o; } void reset() { h.reset(); } bool again() { return true; } };
#endif
O *mk(int alg) {
	int k = R.below(2);
#ifndef CYBOZU_DONT_USE_OPENSSL
	if (alg == 224 || alg == 384 || k) return new O3(alg);
#endif
	if (alg == 1) return new O1; if (alg == 256) return new O2<cybozu::Sha256, 32>; return new O2<cybozu::Sha512, 64>;
}
S cat(const SV& v) { S s; for (size_t i = 0; i < v.size(); i++) s += v[i]; return s; }
SV cut(const S& m) { SV v; size_t p = 0; while (p < m.size() || R.chance(1, 4)) { size_t n = R.chance(1, 8) ? 0 : R.chance(1, 3) ? 1 + R.below(5) : 1 + R.below(140); if (n > m.size() - p) n = m.size() - p; v.push_back(m.substr(p, n)); p += n; } return v; }
void feed(Log& L, O *o, const SV& p) { char ab[64]; snprintf(ab, sizeof(ab), "feed %u pieces", (unsigned)p.size()); L.about(ab); bool last = !p.empty() && R.chance(1, 2); size_t n = p.size() - (last ? 1 : 0); for (size_t i = 0; i < n; i++) o->up(p[i]); S r = o->dg(last ? p.back() : S()); L.ev(J("obj").raw("pieces", jbytesList(p)).bytes("r", r)); }
void session(Log& L, int alg, const SV& p0) {
	S m = cat(p0); L.start(); L.ev(J("msg").n("alg", alg).bytes("m", m)); O *o = mk(alg); feed(L, o, p0); 
	for (int i = 0; i < 3; i++) { int k = R.below(3); if (k == 0) { delete o; o = mk(alg); } else { if (!o->again() || k == 1) { if (o->again() && R.chance(1, 2)) o->up(rnd(R.below(150))); o->reset(); } } feed(L, o, cut(m)); }
	delete o;
	if (R.chance(1, 4)) { char t[64]; L.about("short"); if (alg == 256) { cybozu::Sha256 h; L.ev(J("short").n("r", h.digest(t, 31, m.data(), m.size()))); } else if (alg == 512) { cybozu::Sha512 h; L.ev(J("short").n("r", h.digest(t, 63, m.data(), m.size()))); } }
#ifndef CYBOZU_DONT_USE_OPENSSL
	if (R.chance(1, 2)) { L.about("static digest"); L.ev(J("obj").raw("pieces", jbytesList(p0)).bytes("r", R.chance(1, 2) ? Hash::digest(nm(alg), m) : Hash::digest(nm(alg), m.data(), m.size()))); }
#endif
	L.end();
}
void hmac(Log& L, size_t kl, size_t ml) {
	S key = rnd(kl), m = rnd(ml); L.start(); L.about("hmac"); int alg = 256; S r;
#ifndef CYBOZU_DONT_USE_OPENSSL
	if (R.chance(1, 2)) { static const int as[] = { 1, 224, 256, 384, 512 }; alg = as[R.below(5)]; cybozu::crypto::Hmac h(nm(alg)); if (R.chance(1, 2)) h.eval("k", "other"); r = h.eval(key, m); L.ev(J("hmac").n("alg", alg).bytes("key", key).bytes("m", m).bytes("r", r)); L.end(); return; }
#endif
	r.resize(32); B k(key), b(m); cybozu::hmac256(&r[0], k.d(), k.n, b.d(), b.n); L.ev(J("hmac").n("alg", alg).bytes("key", key).bytes("m", m).bytes("r", r)); L.end();
}
void sip(Log& L) { L.start(); for (int i = 0; i < 8; i++) { S m = rnd(R.chance(1, 12) ? R.below(600) : R.below(26)); uint64_t k0 = 0x0706050403020100ULL, k1 = 0x0f0e0d0c0b0a0908ULL; bool d = R.chance(1, 3); if (!d) { k0 = R.u64(); k1 = R.u64(); } B b(m); L.about("siphash"); uint64_t r = d ? cybozu::siphash24(b.d(), b.n) : cybozu::siphash24(b.d(), b.n, k0, k1); L.ev(J("sip").bytes("m", m).limbs("k0", k0).limbs("k1", k1).limbs("r", r)); } L.end(); }
#ifndef CYBOZU_DONT_USE_OPENSSL
typedef cybozu::crypto::Cipher Ci;
void aes(Log& L) {
	L.start(); int w = R.below(6); static const Ci::Name ns[] = { Ci::N_AES128_CBC, Ci::N_AES192_CBC, Ci::N_AES256_CBC, Ci::N_AES128_ECB, Ci::N_AES192_ECB, Ci::N_AES256_ECB }; bool cbc = w < 3; size_t kl = Ci::getSize(ns[w]) / 8; S key = rnd(kl), iv = rnd(16); Ci c(ns[w]); int rounds = 1 + R.below(2);
	if (R.chance(1, 3)) { L.about("setup"); size_t n = R.chance(1, 2) ? kl : 8 * R.below(5); bool th = false; try { c.setup(R.chance(1, 2) ? Ci::Encoding : Ci::Decoding, rnd(n), iv); } catch (std::exception&) { th = true; } L.ev(J("aeskey").n("klen", n).n("want", kl).b("thrown", th)); }
	while (rounds--) {
		S m = rnd(R.chance(1, 2) ? 16 * R.below(5) : R.below(70)), out, dec; L.about("encrypt"); c.setup(Ci::Encoding, key, iv); SV p = cut(m); char buf[512]; bool bad = false;
		for (size_t i = 0; i < p.size(); i++) { int n = c.update(buf, p[i].data(), (int)p[i].size()); if (n < 0) bad = true; else out.append(buf, n); }
		int f = c.finalize(buf); if (f > 0) out.append(buf, f); if (bad) out += "?"; L.ev(J("aes").bytes("key", key).bytes("iv", iv).b("cbc", cbc).bytes("m", m).bytes("c", out).n("fin", f < 0 ? -1 : 0));
		S ct = R.chance(2, 3) ? out : rnd(R.below(50)); Ci d2(ns[w]); Ci& d = R.chance(1, 2) ? c : d2; L.about("decrypt"); d.setup(Ci::Decoding, key, iv); p = cut(ct); for (size_t i = 0; i < p.size(); i++) { int n = d.update(buf, p[i].data(), (int)p[i].size()); if (n > 0) dec.append(buf, n); } f = d.finalize(buf); if (f > 0) dec.append(buf, f);
		L.ev(J("aesdec").bytes("key", key).bytes("iv", iv).b("cbc", cbc).bytes("c", ct).bytes("p", dec));
	}
	L.end();
}
void naming(Log& L) { static const int as[] = { 1, 224, 256, 384, 512 }; L.start(); L.about("names"); for (int i = 0; i < 5; i++) { S n = Hash::getName(nm(as[i])); int back = -1; for (int k = 0; k < 5; k++) if (Hash::getName(n) == nm(as[k])) back = as[k]; L.ev(J("name").n("alg", as[i]).bytes("s", n).n("back", back).n("size", Hash::getSize(nm(as[i])))); }
	static const char *bad[] = { "", "sha", "SHA1", "sha2", "sha11", "sha0", "sha256 ", "md5", "sha51", "sha5122", "sha1sha1", "ha1" }; for (int i = 0; i < 12; i++) { bool th = false; try { Hash::getName(S(bad[i])); } catch (std::exception&) { th = true; } L.ev(J("badname").bytes("s", bad[i]).b("thrown", th)); } L.end(); }
#endif
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out);
	std::vector<std::vector<int> > sc = loadScript(a.script);
#ifdef CYBOZU_DONT_USE_OPENSSL
	static const int as[] = { 1, 256, 512 }; const int na = 3;
#else
	static const int as[] = { 1, 224, 256, 384, 512 }; const int na = 5;
#endif
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i) && (a.effort > 1 || R.chance(1, 5))) { int alg = as[R.below(na)]; size_t blk = alg == 384 || alg == 512 ? 128 : 64, f = blk / 8; SV p; for (int k = 0; k < sc[i][0]; k++) { size_t z[] = { 0, 1, blk - f - 1 + R.below(2), blk - 1, blk, blk + 1, 2 * blk + 1 }; p.push_back(rnd(z[sc[i][1 + k]])); } session(L, alg, p); }
	// every length over two blocks
	for (int k = 0; k < na; k++) for (size_t n = 0; n < 270; n++) if (a.mine(n * 7 + k) && (a.effort > 1 || n < 140 || n % 64 > 52 || n % 64 < 3)) { if (a.effort == 1 && R.chance(4, 5) && !(n % 64 > 53 || n % 64 < 2)) continue; SV p(1, rnd(n)); session(L, as[k], p); }
	for (int i = 0; i < 8 * a.effort; i++) { session(L, as[R.below(na)], cut(rnd(R.below(700)))); }
	for (int i = 0; i < 6 * a.effort; i++) { static const size_t kl[] = { 0, 1, 20, 32, 63, 64, 65, 100, 127, 128, 129, 200 }; hmac(L, kl[R.below(12)], R.below(150)); }
	for (int i = 0; i < 10 * a.effort; i++) sip(L);
#ifndef CYBOZU_DONT_USE_OPENSSL
	naming(L);
	for (int i = 0; i < 8 * a.effort; i++) aes(L);
#endif
	return 0;
}
