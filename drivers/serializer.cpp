#include "verif.hpp"
#include <string>
#include <vector>
#include <list>
#include <deque>
#include <set>
#include <map>
#include <sstream>
#include <unordered_map>
#include <cybozu/serializer.hpp>
#include <cybozu/string.hpp>
using namespace verif;
static Rng *gR;
#define R (*gR)
#ifdef CYBOZU_SERIALIZER_FIXED_SIZE_INTEGER
static const bool fixedInt = true;
#else
static const bool fixedInt = false;
#endif

// ---- user types with their own save/load
struct Point {
	int x; unsigned long y; std::string name; std::vector<short> v;
	Point() : x(0), y(0) {}
	template<class IS> void load(IS& is) { cybozu::load(x, is); cybozu::load(y, is); cybozu::load(name, is); cybozu::load(v, is); }
	template<class OS> void save(OS& os) const { cybozu::save(os, x); cybozu::save(os, y); cybozu::save(os, name); cybozu::save(os, v); }
};
struct PodVec { // through loadPodVec / savePodVec
	std::vector<uint32_t> v;
	template<class IS> void load(IS& is) { cybozu::loadPodVec(v, is); }
	template<class OS> void save(OS& os) const { cybozu::savePodVec(os, v); }
};

// ---- recorded form
template<class T> std::string podJ(const T& x) { return "{\"k\":\"p\",\"b\":" + J::arr((const uint8_t*)&x, sizeof(x)) + "}"; }
template<class T> std::string intJ(T x) { J j; j.str("k", "i"); j.limbs("l", (uint64_t)x, sizeof(T) / 2); return j.end(); }
inline std::string toJ(bool x) { return podJ(x); }
inline std::string toJ(char x) { return podJ(x); }
inline std::string toJ(unsigned char x) { return podJ(x); }
inline std::string toJ(short x) { return podJ(x); }
inline std::string toJ(unsigned short x) { return podJ(x); }
inline std::string toJ(wchar_t x) { return podJ(x); }
inline std::string toJ(float x) { return podJ(x); }
inline std::string toJ(double x) { return podJ(x); }
inline std::string toJ(int x) { return intJ(x); }
inline std::string toJ(unsigned int x) { return intJ(x); }
inline std::string toJ(long x) { return intJ(x); }
inline std::string toJ(unsigned long x) { return intJ(x); }
inline std::string toJ(long long x) { return intJ(x); }
inline std::string toJ(unsigned long long x) { return intJ(x); }
inline std::string toJ(const std::string& s) { return "{\"k\":\"s\",\"b\":" + jbytes(s) + "}"; }
// a size prefix followed by raw elements
inline std::string toJ(const cybozu::String& s) {
	std::vector<std::string> t; for (size_t i = 0; i < s.size(); i++) { cybozu::Char c = s[i]; t.push_back(podJ(c)); }
	return "{\"k\":\"v\",\"e\":" + jlist(t) + "}";
}
template<class T> std::string toJ(const std::vector<T>& x);
template<class T> std::string toJ(const std::list<T>& x);
template<class T> std::string toJ(const std::deque<T>& x);
template<class T> std::string toJ(const std::set<T>& x);
template<class T> std::string toJ(const std::multiset<T>& x);
template<class K, class V> std::string toJ(const std::map<K, V>& x);
template<class K, class V> std::string toJ(const std::multimap<K, V>& x);
template<class K, class V> std::string toJ(const std::unordered_map<K, V>& x);
std::string toJ(const Point& p);
std::string toJ(const PodVec& p);
template<class C> std::string seqJ(const C& x) { std::vector<std::string> t; for (typename C::const_iterator i = x.begin(); i != x.end(); ++i) t.push_back(toJ(*i)); return "{\"k\":\"v\",\"e\":" + jlist(t) + "}"; }
template<class C> std::string mapJ(const C& x, const char *k) { std::vector<std::string> t; for (typename C::const_iterator i = x.begin(); i != x.end(); ++i) { t.push_back(toJ(i->first)); t.push_back(toJ(i->second)); } return std::string("{\"k\":\"") + k + "\",\"e\":" + jlist(t) + "}"; }
template<class T> std::string toJ(const std::vector<T>& x) { return seqJ(x); }
template<class T> std::string toJ(const std::list<T>& x) { return seqJ(x); }
template<class T> std::string toJ(const std::deque<T>& x) { return seqJ(x); }
template<class T> std::string toJ(const std::set<T>& x) { return seqJ(x); }
template<class T> std::string toJ(const std::multiset<T>& x) { return seqJ(x); }
template<class K, class V> std::string toJ(const std::map<K, V>& x) { return mapJ(x, "m"); }
template<class K, class V> std::string toJ(const std::multimap<K, V>& x) { return mapJ(x, "m"); }
template<class K, class V> std::string toJ(const std::unordered_map<K, V>& x) { return mapJ(x, "u"); }
std::string toJ(const Point& p) { std::vector<std::string> t; t.push_back(toJ(p.x)); t.push_back(toJ(p.y)); t.push_back(toJ(p.name)); t.push_back(toJ(p.v)); return "{\"k\":\"o\",\"e\":" + jlist(t) + "}"; }
std::string toJ(const PodVec& p) { std::vector<std::string> t; for (size_t i = 0; i < p.v.size(); i++) t.push_back(podJ(p.v[i])); return "{\"k\":\"v\",\"e\":" + jlist(t) + "}"; }

// ---- random values
inline uint64_t rndInt() {
	uint64_t x;
	switch (R.below(6)) {
	case 0: x = R.below(256) - 128; break;
	case 1: { static const int sh[] = { 7, 8, 15, 16, 31, 32, 33, 47, 48, 62, 63 }; x = uint64_t(1) << sh[R.below(11)]; x += R.below(20) - 10; if (R.chance(1, 2)) x = 0 - x; break; }
	case 2: x = R.u64(); break;
	case 3: x = R.u64() >> R.below(64); if (R.chance(1, 2)) x = 0 - x; break;
	case 4: x = uint64_t(0x7c + R.below(16)); if (R.chance(1, 2)) x |= ~uint64_t(0xff); break;
	default: x = R.below(70000); if (R.chance(1, 2)) x = 0 - x; break;
	}
	return x;
}
inline size_t rndLen() { return R.chance(1, 5) ? 0 : R.chance(9, 10) ? R.below(6) : R.below(40); }
template<class T> void rnd(T& x) { x = (T)rndInt(); }
template<> void rnd(bool& x) { x = R.chance(1, 2); }
template<> void rnd(float& x) { uint32_t u = (uint32_t)R.u64(); if (R.chance(1, 2)) x = float(rndInt()) / 7; else memcpy(&x, &u, 4); }
template<> void rnd(double& x) { uint64_t u = R.u64(); if (R.chance(1, 2)) x = double(rndInt()) / 7; else memcpy(&x, &u, 8); }
inline void rnd(std::string& s) { s.clear(); size_t n = R.chance(1, 12) ? 100 + R.below(200) : rndLen(); for (size_t i = 0; i < n; i++) s += (char)R.u64(); }
inline void rnd(cybozu::String& s) { s.clear(); size_t n = rndLen(); for (size_t i = 0; i < n; i++) s += (cybozu::Char)(R.below(0x10ffff)); }
template<class T> void rnd(std::vector<T>& x); template<class T> void rnd(std::list<T>& x); template<class T> void rnd(std::deque<T>& x);
template<class T> void rnd(std::set<T>& x); template<class T> void rnd(std::multiset<T>& x);
template<class K, class V> void rnd(std::map<K, V>& x); template<class K, class V> void rnd(std::multimap<K, V>& x); template<class K, class V> void rnd(std::unordered_map<K, V>& x);
inline void rnd(Point& p);
inline void rnd(PodVec& p);
template<class C, class T> void rndSeq(C& x, T) { x.clear(); size_t n = rndLen(); for (size_t i = 0; i < n; i++) { T t = T(); rnd(t); x.insert(x.end(), t); } }
template<class T> void rnd(std::vector<T>& x) { rndSeq(x, T()); if (sizeof(T) <= 2 && R.chance(1, 10)) { x.resize(250 + R.below(20)); } }
template<class T> void rnd(std::list<T>& x) { rndSeq(x, T()); }
template<class T> void rnd(std::deque<T>& x) { rndSeq(x, T()); }
template<class T> void rnd(std::set<T>& x) { rndSeq(x, T()); }
template<class T> void rnd(std::multiset<T>& x) { rndSeq(x, T()); if (!x.empty() && R.chance(1, 2)) x.insert(*x.begin()); }
template<class C, class K, class V> void rndMap(C& x, K, V) { x.clear(); size_t n = rndLen(); for (size_t i = 0; i < n; i++) { K k = K(); V v = V(); rnd(k); rnd(v); x.insert(std::make_pair(k, v)); } }
template<class K, class V> void rnd(std::map<K, V>& x) { rndMap(x, K(), V()); }
template<class K, class V> void rnd(std::multimap<K, V>& x) { rndMap(x, K(), V()); if (!x.empty() && R.chance(1, 2)) { V v = V(); rnd(v); x.insert(std::make_pair(x.begin()->first, v)); } }
template<class K, class V> void rnd(std::unordered_map<K, V>& x) { rndMap(x, K(), V()); }
inline void rnd(Point& p) { rnd(p.x); rnd(p.y); rnd(p.name); rnd(p.v); }
inline void rnd(PodVec& p) { rnd(p.v); }

struct Base {
	virtual ~Base() {}
	virtual std::string save(std::string& whole, int sink) = 0; // appends to whole, returns JSON of value
	virtual void load(cybozu::StringInputStream& is) = 0;
	virtual void load(cybozu::MemoryInputStream& is) = 0;
	virtual void load(std::istream& is) = 0;
	virtual void load(ShortReader& is) = 0;
	virtual std::string loaded() const = 0;
};
template<class T> struct Item : Base {
	T v; T w;
	bool cstr;
	Item() : v(), w(), cstr(false) { rnd(v); if (R.chance(2, 3)) { rnd(w); if (R.chance(1, 4)) w = v; } }
	std::string save(std::string& whole, int sink) {
		switch (sink) {
		case 0: { cybozu::StringOutputStream os(whole); cybozu::save(os, v); break; }
		case 1: { std::ostringstream os; cybozu::save(os, v); whole += os.str(); break; }
		default: { std::vector<char> buf(200000); cybozu::MemoryOutputStream os(&buf[0], buf.size()); cybozu::save(os, v); whole.append(&buf[0], os.getPos()); break; }
		}
		return toJ(v);
	}
	template<class IS> void ld(IS& is) { cybozu::load(w, is); }
	void load(cybozu::StringInputStream& is) { ld(is); }
	void load(cybozu::MemoryInputStream& is) { ld(is); }
	void load(std::istream& is) { ld(is); }
	void load(ShortReader& is) { ld(is); }
	std::string loaded() const { return toJ(w); }
};
struct CStrItem : Item<std::string> {
	std::string save(std::string& whole, int) {
		v = std::string(v.c_str());
		cybozu::StringOutputStream os(whole); cybozu::save(os, v.c_str()); return toJ(v);
	}
};

Base *make(int k) {
	using namespace std;
	switch (k) {
	case 0: return new Item<int>(); case 1: return new Item<unsigned int>(); case 2: return new Item<long>(); case 3: return new Item<unsigned long>();
	case 4: return new Item<long long>(); case 5: return new Item<unsigned long long>();
	case 6: return new Item<char>(); case 7: return new Item<unsigned char>(); case 8: return new Item<short>(); case 9: return new Item<unsigned short>();
	case 10: return new Item<wchar_t>(); case 11: return new Item<bool>(); case 12: return new Item<float>(); case 13: return new Item<double>();
	case 14: return new Item<string>(); case 15: return new CStrItem();
	case 16: return new Item<vector<int> >(); case 17: return new Item<vector<string> >(); case 18: return new Item<vector<unsigned char> >();
	case 19: return new Item<vector<vector<unsigned long> > >(); case 20: return new Item<list<long> >(); case 21: return new Item<list<string> >();
	case 22: return new Item<deque<double> >(); case 23: return new Item<deque<vector<short> > >();
	case 24: return new Item<set<int> >(); case 25: return new Item<set<string> >(); case 26: return new Item<multiset<long> >();
	case 27: return new Item<map<string, int> >(); case 28: return new Item<map<int, vector<string> > >(); case 29: return new Item<multimap<int, string> >();
	case 30: return new Item<unordered_map<int, string> >(); case 31: return new Item<unordered_map<string, unsigned int> >();
	case 32: return new Item<vector<list<string> > >(); case 33: return new Item<map<string, vector<vector<int> > > >();
	case 34: return new Item<Point>(); case 35: return new Item<vector<Point> >(); case 36: return new Item<map<int, Point> >(); case 37: return new Item<PodVec>();
	case 38: return new Item<cybozu::String>(); case 39: return new Item<vector<float> >(); case 40: return new Item<map<unsigned long, vector<list<int> > > >();
	}
	return 0;
}
static const int kinds = 41;

template<class IS> void loads(Log& L, IS& is, std::vector<Base*>& items, int64_t (*pos)(IS&)) {
	for (size_t i = 0; i < items.size(); i++) {
		L.about("load");
		bool thrown = false;
		try { items[i]->load(is); } catch (std::exception&) { thrown = true; }
		if (thrown) { L.ev(J("load").b("thrown", true)); break; }
		L.ev(J("load").b("thrown", false).n("pos", pos(is)).raw("v", items[i]->loaded()));
	}
}
int64_t posS(cybozu::StringInputStream& is) { return is.getPos(); }
int64_t posM(cybozu::MemoryInputStream& is) { return is.getPos(); }
int64_t posI(std::istream& is) { return is ? (int64_t)is.tellg() : -1; }
int64_t posR(ShortReader& is) { return is.pos; }

// one session: items saved, optional truncation, loaded
void session(Log& L, std::vector<Base*>& items, int64_t trunc) {
	L.start(J().b("fixed", fixedInt).end());
	std::string whole;
	for (size_t i = 0; i < items.size(); i++) {
		std::string before = whole, v; bool thrown = false;
		L.about("save");
		int sink = R.below(3);
		try { v = items[i]->save(whole, sink); } catch (std::exception&) { thrown = true; v = "{\"k\":\"v\",\"e\":[]}"; }
		bool prefixKept = whole.compare(0, before.size(), before) == 0;
		L.ev(J("save").raw("v", v).b("thrown", thrown || !prefixKept).bytes("out", whole.substr(before.size())));
	}
	if (trunc >= 0) {
		size_t n = trunc < (int64_t)whole.size() ? trunc : whole.size();
		whole.resize(n);
		L.ev(J("truncate").n("n", n));
	}
	// exact heap buffer: reading past the end is seen by the sanitizer
	std::vector<char> exact(whole.begin(), whole.end());
	switch (R.below(4)) {
	case 0: { cybozu::StringInputStream is(whole); loads(L, is, items, posS); break; }
	case 1: { cybozu::MemoryInputStream is(exact.data(), exact.size()); loads(L, is, items, posM); break; }
	case 2: { std::istringstream is(whole); loads<std::istream>(L, is, items, posI); break; }
	default: { ShortReader is(whole, randomSizes(R)); loads(L, is, items, posR); break; }
	}
	L.end();
}
#ifndef CYBOZU_SERIALIZER_FIXED_SIZE_INTEGER
template<class T> void raw(Log& L, const std::string& b) { // any documented form, written by whomever
	bool th = false; T x = (T)R.u64(); int64_t pos = -1; L.about("raw"); std::vector<char> ex(b.begin(), b.end());
	try { if (R.chance(1, 2)) { cybozu::MemoryInputStream is(ex.data(), ex.size()); cybozu::load(x, is); pos = is.getPos(); } else { ShortReader is(b, randomSizes(R)); cybozu::load(x, is); pos = is.pos; } } catch (std::exception&) { th = true; }
	L.ev(J("raw").bytes("b", b).n("n", sizeof(T) / 2).b("thrown", th).n("pos", pos).limbs("l", (uint64_t)x, sizeof(T) / 2));
}
#endif
template<class T> void bigOne(Log& L, const char *what, const T& x) { L.about(what); std::string s; { cybozu::StringOutputStream os(s); cybozu::save(os, x); } s += "tail"; ShortReader is(s, randomSizes(R)); T y; cybozu::load(y, is); bigEvent(L, what, x.size(), y.size(), x == y && is.pos == s.size() - 4); }
void bigAll(Log& L, const Args& a) { std::vector<size_t> z = bigSizes(a, a.effort > 1 ? 1100000 : 140000); for (size_t i = 0; i < z.size(); i++) { size_t n = z[i]; L.start(J().b("fixed", false).end()); std::string d = bigData(n, a.seed + n); bigOne(L, "string", d); std::vector<int> vi; std::list<short> ls; std::set<unsigned> se; std::map<int, std::string> ma; std::vector<std::string> vs; std::unordered_map<int, int> um; std::deque<long long> dq;
	for (size_t k = 0; k < n; k++) { int v = (int)(k * 2654435761u); vi.push_back(v); ls.push_back((short)v); if (n <= 70001) { se.insert(v); if (k % 3 == 0) ma[v] = d.substr(k, 2); vs.push_back(d.substr(k, k % 5)); um[(int)k] = v; dq.push_back((long long)v << (k % 32)); } }
	bigOne(L, "vector<int>", vi); bigOne(L, "list<short>", ls); if (n <= 70001) { bigOne(L, "set", se); bigOne(L, "map", ma); bigOne(L, "vector<string>", vs); bigOne(L, "unordered_map", um); bigOne(L, "deque", dq); } cybozu::String us(n, L'a'); for (size_t k = 0; k < n; k++) us[k] = (cybozu::Char)(k * 7919 % 0xd000); bigOne(L, "String", us); L.end(); } }
int main(int argc, char **argv) {
	Args a(argc, argv);
	Rng r(a.seed); gR = &r;
	Log L(a.out);
	bigAll(L, a);
	// every truncation point of small values
	for (int k = 0; k < kinds; k++) for (int rep = 0; rep < 2 * a.effort; rep++) {
		std::vector<Base*> items(1, make(k));
		std::string tmp; items[0]->save(tmp, 0);
		session(L, items, -1);
		for (size_t n = 0; n < tmp.size() && n < 60; n++) session(L, items, n);
		delete items[0];
	}
#ifndef CYBOZU_SERIALIZER_FIXED_SIZE_INTEGER
	for (int h = 0; h < 256; h++) if (h >= 0x80 && h <= 0x87 ? true : h % 16 == (int)R.below(16)) for (int rep = 0; rep < (h >= 0x80 && h <= 0x87 ? 12 : 1) * a.effort; rep++) {
		L.start(J().b("fixed", false).end()); std::string b(1, (char)h); size_t m = R.chance(3, 4) ? 8 : R.below(10); for (size_t i = 0; i < m; i++) b += R.chance(1, 4) ? char(0xff) : R.chance(1, 4) ? char(0x80) : char(R.u64());
		raw<int>(L, b); raw<unsigned int>(L, b); raw<long>(L, b); raw<unsigned long>(L, b); raw<long long>(L, b); raw<unsigned long long>(L, b); L.end(); }
#endif
	int N = 1500 * a.effort;
	for (int i = 0; i < N; i++) {
		std::vector<Base*> items; size_t n = 1 + R.below(6);
		for (size_t j = 0; j < n; j++) items.push_back(make(R.chance(1, 3) ? R.below(6) : R.below(kinds)));
		std::string tmp; if (R.chance(1, 4)) for (size_t j = 0; j < n; j++) items[j]->save(tmp, 0);
		session(L, items, tmp.empty() ? -1 : (int64_t)R.below(tmp.size()));
		for (size_t j = 0; j < n; j++) delete items[j];
	}
	// all 16-bit integers as int and long, and all boundaries, without an intermediate choice
	for (int c = 0; c < 12 * a.effort; c++) {
		std::vector<Base*> items;
		for (int j = 0; j < 200; j++) items.push_back(make(R.below(6)));
		session(L, items, -1);
		for (size_t j = 0; j < items.size(); j++) delete items[j];
	}
	return 0;
}
