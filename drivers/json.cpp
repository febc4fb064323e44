// P43: values of JSON documents: histories of building, copying, assigning, exchanging and taking parts.
#include <stddef.h>
#include <new>
#include <stdlib.h>
static long gLive;
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); gLive++; return p; }
void operator delete(void *p) noexcept { if (p) gLive--; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) gLive--; free(p); }
#include <cybozu/json.hpp>
#include "verif.hpp"
using namespace verif; typedef cybozu::Json Js; typedef Js::Value V; typedef std::string S;
static Rng *gR;
#define R (*gR)
S tree(const V& v) {
	if (v.isString()) return J().str("t", "str").bytes("s", v.getString()).end();
	if (v.isNumber()) { double d = v.getNumber(); return J().str("t", "num").n("n", d == (double)(int)d ? (int)d : -1).end(); }
	if (v.isBool()) return J().str("t", "bool").b("b", v.getBool()).end();
	std::vector<S> l;
	if (v.isArray()) { const Js::Array& a = v.getArray(); for (size_t i = 0; i < a.size(); i++) l.push_back(tree(a[i])); return J().str("t", "arr").raw("l", jlist(l)).end(); }
	if (v.isObject()) { const Js::Object& o = v.getObject(); for (Js::Object::const_iterator i = o.begin(); i != o.end(); ++i) l.push_back(J().bytes("k", i->first).raw("v", tree(i->second)).end()); return J().str("t", "obj").raw("m", jlist(l)).end(); }
	return v.isNull() ? J().str("t", "null").end() : J().str("t", "?").end(); }
size_t weight(const V& v) { size_t n = 1; if (v.isArray()) for (size_t i = 0; i < v.getArray().size(); i++) n += weight(v.getArray()[i]); if (v.isObject()) for (Js::Object::const_iterator i = v.getObject().begin(); i != v.getObject().end(); ++i) n += weight(i->second); return n; }
const V *kid(const V& v, int i) { if (v.isArray()) return i < (int)v.getArray().size() ? &v.getArray()[i] : 0; if (v.isObject() && i < (int)v.getObject().size()) { Js::Object::const_iterator p = v.getObject().begin(); while (i--) ++p; return &p->second; } return 0; }
S text() { S s; int n = R.chance(1, 8) ? R.range(14, 60) : R.below(5); while (n--) s += R.chance(1, 6) ? (char)R.below(256) : (char)R.range('a', 'c'); return s; }
void put(V& d, const V& x) { switch (R.below(3)) { case 0: d = x; break; case 1: { V c(x); d = c; } break; default: { V c(x); d.swap(c); } } }
struct M { V v[3]; Log& L; M(Log& l) : L(l) {}
	void see() { std::vector<S> l; for (int i = 0; i < 3; i++) l.push_back(tree(v[i])); L.ev(J("see").raw("v", jlist(l))); int s = R.below(3); l.clear(); const V& x = v[s]; if (x.isNull()) l.push_back("\"null\""); if (x.isString()) l.push_back("\"str\""); if (x.isObject()) l.push_back("\"obj\""); if (x.isArray()) l.push_back("\"arr\""); if (x.isBool()) l.push_back("\"bool\""); if (x.isNumber()) l.push_back("\"num\""); L.ev(J("is").n("s", s + 1).raw("r", jlist(l))); }
	void set(int d, int kind, int n, const S& s) { J e("set"); e.n("d", d + 1); L.about("set"); if (kind == 0) { put(v[d], V()); e.raw("x", "{\"t\":\"null\"}"); } else if (kind == 1) { put(v[d], V((double)n)); e.raw("x", J().str("t", "num").n("n", n).end()); } else if (kind == 2) { put(v[d], V(n != 0)); e.raw("x", J().str("t", "bool").b("b", n != 0).end()); } else { bool c = s.find('\0') == S::npos && R.chance(1, 2); if (c) put(v[d], V(s.c_str())); else put(v[d], V(s)); e.raw("x", J().str("t", "str").bytes("s", s).end()); } L.ev(e); }
	void copy(int d, int s) { L.about("copy"); put(v[d], v[s]); L.ev(J("copy").n("d", d + 1).n("s", s + 1)); }
	void swap(int d, int s) { L.about("swap"); v[d].swap(v[s]); L.ev(J("swap").n("d", d + 1).n("s", s + 1)); }
	void arr(int d, const std::vector<int>& l) { L.about("arr"); std::vector<int> x; { Js::Array a; for (size_t i = 0; i < l.size(); i++) { a.push_back(v[l[i]]); x.push_back(l[i] + 1); } V c(a); if (R.chance(1, 2)) a.clear(); put(v[d], c); } L.ev(J("arr").n("d", d + 1).nums("l", x)); }
	void push(int d, int s) { if (!v[d].isArray()) return; L.about("push"); if (R.chance(1, 2)) { V c(v[s]); v[d].arr_->push_back(c); } else { Js::Array a(v[d].getArray()); a.push_back(v[s]); v[d] = V(a); } L.ev(J("push").n("d", d + 1).n("s", s + 1)); }
	void obj(int d) { L.about("obj"); put(v[d], V(Js::Object())); L.ev(J("obj").n("d", d + 1)); }
	void putm(int d, const S& k, int s) { if (!v[d].isObject()) return; L.about("put"); if (R.chance(1, 2)) { V c(v[s]); (*v[d].obj_)[k] = c; } else { Js::Object o(v[d].getObject()); o[k] = v[s]; v[d] = V(o); } L.ev(J("put").n("d", d + 1).bytes("k", k).n("s", s + 1)); }
	void part(int d, int s, int i) { const V *p = kid(v[s], i); if (!p) return; L.about("part"); put(v[d], *p); L.ev(J("kid").n("d", d + 1).n("s", s + 1).n("i", i + 1)); } };
template<class F> void session(Log& L, F f) { L.start(J().end()); long before; { S warm; } before = gLive; { M m(L); f(m); m.see(); } long left = gLive - before; L.ev(J("left").n("n", left)); L.end(); }
struct Script { const std::vector<int>& o; void operator()(M& m) const { for (size_t i = 0; i < o.size(); i++) { std::vector<int> l; switch (o[i]) { case 1: m.set(0, 1, 5, ""); break; case 2: m.set(1, 3, 0, "a"); break; case 3: m.set(0, 0, 0, ""); break; case 4: m.copy(1, 0); break; case 5: m.copy(0, 0); break; case 6: m.copy(0, 2); break; case 7: m.copy(2, 1); break; case 8: m.swap(0, 1); break; case 9: m.swap(2, 2); break; case 10: l.push_back(1); l.push_back(0); m.arr(0, l); break; case 11: m.arr(2, l); break; case 12: m.push(0, 1); break; case 13: m.push(2, 2); break; case 14: m.push(0, 0); break; case 15: m.obj(1); break; case 16: m.putm(1, "b", 0); break; case 17: m.putm(1, S("a\0", 2), 1); break; case 18: m.putm(1, "b", 2); break; case 19: m.part(0, 0, 0); break; case 20: m.part(2, 1, 0); break; case 21: m.part(0, 0, 1); break; } } } };
struct Rand { void operator()(M& m) const { int n = R.range(1, 25); while (n--) { int d = R.below(3), s = R.below(3); bool big = weight(m.v[0]) + weight(m.v[1]) + weight(m.v[2]) > 120; int o = R.below(10); if (big && o != 3) o = 0; std::vector<int> l; switch (o) { case 0: case 1: m.set(d, R.below(4), R.chance(1, 2) ? R.below(3) : (int)R.below(2000000) - 1000000, text()); break; case 2: m.copy(d, s); break; case 3: m.swap(d, s); break; case 4: { int k = R.below(4); while (k--) l.push_back(R.below(3)); m.arr(d, l); } break; case 5: m.push(d, s); break; case 6: m.obj(d); break; case 7: case 8: m.putm(d, text(), s); break; default: m.part(d, s, R.below(3)); } if (R.chance(1, 6)) m.see(); } } };
void bigAll(Log& L, const Args& a) { std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 600000 : 70000); for (size_t q = 0; q < z.size(); q++) { size_t n = z[q]; L.start(J().end()); L.about("big"); long before = gLive; { S d = bigData(n, R.u64()); V s(d); bigEvent(L, "str", n, s.getString().size(), s.getString() == d); V c(s), e; e = c; bigEvent(L, "copy", n, e.getString().size(), e.getString() == d); Js::Array l; for (size_t i = 0; i < n; i++) l.push_back(V((double)i)); V x(l), y; y = x; l.clear(); bool ok = true; for (size_t i = 0; i < y.getArray().size(); i++) if (y.getArray()[i].getNumber() != (double)i) ok = false; bigEvent(L, "arr", n, y.getArray().size(), ok); Js::Object o; for (size_t i = 0; i < n / 4; i++) { char b[32]; snprintf(b, sizeof(b), "%u", (unsigned)i); o[b] = V((double)i); } V w(o), u; u = w; o.clear(); ok = true; for (Js::Object::const_iterator i = u.getObject().begin(); i != u.getObject().end(); ++i) if (i->second.getNumber() != atof(i->first.c_str())) ok = false; bigEvent(L, "obj", n / 4, u.getObject().size(), ok); V deep((double)1); for (size_t i = 0; i < 200; i++) { Js::Array t; t.push_back(deep); deep = V(t); } V dd(deep); size_t k = 0; const V *p = &dd; while (p->isArray()) { p = &p->getArray()[0]; k++; } bigEvent(L, "deep", 200, k, p->getNumber() == 1); } L.ev(J("left").n("n", gLive - before)); L.end(); } }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng r(a.seed); gR = &r; Log L(a.out, 60); std::vector<std::vector<int> > sc = loadScript(a.script);
	for (size_t i = 0; i < sc.size(); i++) if (a.mine(i)) { Script s = { sc[i] }; session(L, s); }
	for (int n = 0; n < 150 * a.effort; n++) session(L, Rand());
	bigAll(L, a);
	return 0; }
