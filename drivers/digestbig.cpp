// P20: digests of long messages (zeros), in one call and in pieces
#include <string.h>
#include <string>
#include <cybozu/exception.hpp>
#include <cybozu/sha1.hpp>
#include <cybozu/sha2.hpp>
#ifndef CYBOZU_DONT_USE_OPENSSL
#include <cybozu/crypto.hpp>
#endif
#include "verif.hpp"
using namespace verif;
typedef std::string S;
static const size_t lens[] = { 70000, 200003, 16777221, 536870915, 4294967303ull };
static S own(cybozu::Sha1& h, const char *p, size_t n) { return h.digest(p, n); }
template<class H> S own(H& h, const char *p, size_t n) { return h.digest(p, n); }
template<class H> S eval(H& h, const char *p, size_t n, int how, Rng& R) {
	if (how == 0) return own(h, p, n);
	if (how == 1) { h.update(p, n); return own(h, p, 0); }
	size_t a = R.below(n > 100000000 ? 100000 : n), pos = 0; h.update(p, a); pos = a; size_t step = n / 7 + R.below(1000); while (n - pos > step) { h.update(p, step); pos += step; } return own(h, p, n - pos); }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng R(a.seed); Log L(a.out, 800);
	size_t nl = a.effort > 1 ? 5 : 4; char *z = (char*)calloc(lens[nl - 1] + 1, 1); // reading maps the zero page only
	size_t c = 0;
	for (size_t k = 0; k < nl; k++) { static const int as[] = { 1, 256, 512, 224, 384 };
		for (int i = 0; i < 5; i++) for (int obj = 0; obj < 2; obj++) {
#ifdef CYBOZU_DONT_USE_OPENSSL
			if (obj || i >= 3) continue;
#else
			if (!obj && i >= 3) continue;
#endif
			for (int how = 0; how < 3; how++) { if (k >= 3 && how != (int)((i + obj + a.seed) % 3)) continue; if (!a.mine(c++)) continue; L.start(); L.about("long message"); S r;
				if (!obj) { if (as[i] == 1) { cybozu::Sha1 h; r = eval(h, z, lens[k], how, R); } else if (as[i] == 256) { cybozu::Sha256 h; r = eval(h, z, lens[k], how, R); } else { cybozu::Sha512 h; r = eval(h, z, lens[k], how, R); } }
#ifndef CYBOZU_DONT_USE_OPENSSL
				else { typedef cybozu::crypto::Hash H; static const H::Name nm[] = { H::N_SHA1, H::N_SHA256, H::N_SHA512, H::N_SHA224, H::N_SHA384 }; H h(nm[i]); r = eval(h, z, lens[k], how, R); }
#endif
				L.ev(J("zeros").n("alg", as[i]).n("k", k + 1).bytes("r", r)); L.end(); } } }
	free(z); return 0;
}
