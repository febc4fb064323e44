// P45: objects of every class used side by side, in one thread (interleavings from the model) and in several.
// A stepper holds objects of one class and performs a fixed sequence of steps; a step yields an observation.
#include <string.h>
#include <pthread.h>
#include <math.h>
#include <sstream>
#include <iostream>
#include <map>
#include <cybozu/exception.hpp>
#include <cybozu/format.hpp>
#include <cybozu/sha1.hpp>
#include <cybozu/sha2.hpp>
#include <cybozu/siphash.hpp>
#ifndef CYBOZU_DONT_USE_OPENSSL
#include <cybozu/crypto.hpp>
#endif
#include <cybozu/hash.hpp>
#include <cybozu/zlib.hpp>
#include <cybozu/csv.hpp>
#include <cybozu/line_stream.hpp>
#include <cybozu/base64.hpp>
#include <cybozu/xorshift.hpp>
#include <cybozu/pcg.hpp>
#include <cybozu/random_generator.hpp>
#include <cybozu/nlp/random.hpp>
#include <cybozu/bitvector.hpp>
#include <cybozu/sucvector.hpp>
#include <cybozu/csucvector.hpp>
#include <cybozu/wavelet_matrix.hpp>
#include <cybozu/fmindex.hpp>
#include <cybozu/frequency.hpp>
#include <cybozu/nlp/top_score.hpp>
#include <cybozu/nlp/sparse.hpp>
#include <cybozu/nlp/tfidf.hpp>
#include <cybozu/array.hpp>
#include <cybozu/string.hpp>
#include <cybozu/string_operation.hpp>
#include <cybozu/minixml.hpp>
#include <cybozu/config.hpp>
#include <cybozu/option.hpp>
#include <cybozu/json.hpp>
#include <cybozu/serializer.hpp>
#include <cybozu/itoa.hpp>
#include <cybozu/atoi.hpp>
#include <cybozu/time.hpp>
#include <cybozu/file.hpp>
#include <cybozu/mmap.hpp>
#include <cybozu/endian.hpp>
#include <cybozu/event.hpp>
#include <cybozu/mutex.hpp>
#include <cybozu/tls.hpp>
#include <cybozu/thread.hpp>
#include <cybozu/parallel.hpp>
#include "verif.hpp"
using namespace verif; typedef std::string S; typedef std::vector<S> SV;
static const int STEPS = 4;
struct Ob { uint32_t h; Ob() : h(2166136261u) {} void raw(const void *p, size_t n) { const unsigned char *q = (const unsigned char*)p; for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 16777619u; } Ob& operator<<(const S& s) { *this << (uint64_t)s.size(); raw(s.data(), s.size()); return *this; } Ob& operator<<(const char *s) { return *this << S(s); } Ob& operator<<(uint64_t v) { raw(&v, 8); return *this; } Ob& operator<<(int v) { return *this << (uint64_t)v; } Ob& operator<<(bool v) { return *this << (uint64_t)v; } Ob& operator<<(unsigned v) { return *this << (uint64_t)v; } Ob& operator<<(double d) { raw(&d, 8); return *this; } int get() const { return int(h & 0x3fffffff); } };
struct Step { Rng R; Step(int s) : R(s * 7919 + 13) {} virtual ~Step() {} virtual void step(int k, Ob& o) = 0; S data(size_t n) { S s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)R.u64(); return s; } S word(size_t n) { S s(n, 0); for (size_t i = 0; i < n; i++) s[i] = "abcde,\" \n=XY"[R.below(12)]; return s; } };
template<class H> struct Dig : Step { H h; Dig(int s) : Step(s) {} void step(int k, Ob& o) { h.update(data(10 + R.below(150))); if (k == STEPS - 1) o << h.digest(data(R.below(90))); } };
struct Sip : Step { Sip(int s) : Step(s) {} void step(int, Ob& o) { S d = data(R.below(60)); o << cybozu::siphash24(d.data(), d.size()) << cybozu::hash32(d.data(), d.size()) << cybozu::hash64(d.data(), d.size()); char m[32]; cybozu::hmac256(m, d.data(), d.size() / 2, d.data(), d.size()); o << S(m, 32); } };
#ifndef CYBOZU_DONT_USE_OPENSSL
struct CHash : Step { cybozu::crypto::Hash h; CHash(int s) : Step(s), h(s % 2 ? cybozu::crypto::Hash::N_SHA256 : cybozu::crypto::Hash::N_SHA1) {} void step(int k, Ob& o) { h.update(data(10 + R.below(150))); if (k % 2) { o << h.digest(data(R.below(90))); h.reset(); } cybozu::crypto::Hmac m(cybozu::crypto::Hash::N_SHA384); o << m.eval("key", data(9)); } };
struct Aes : Step { cybozu::crypto::Cipher c; Aes(int s) : Step(s), c(cybozu::crypto::Cipher::N_AES128_CBC) { S k = data(16), iv = data(16); c.setup(cybozu::crypto::Cipher::Encoding, k, iv); } void step(int, Ob& o) { char b[256]; S d = data(R.below(100)); int n = c.update(b, d.data(), (int)d.size()); o << n; if (n > 0) o << S(b, n); } };
#endif
struct ZC : Step { std::ostringstream os; cybozu::ZlibCompressorT<std::ostringstream, 16> *z; bool gz; ZC(int s) : Step(s), gz(s % 2) { z = new cybozu::ZlibCompressorT<std::ostringstream, 16>(os, gz); } ~ZC() { delete z; } void step(int k, Ob& o) { S d = data(40 + R.below(200)); z->write(d.data(), d.size()); if (k == STEPS - 1) z->flush(); o << os.str(); } };
struct ZD : Step { S c; cybozu::StringInputStream *is; cybozu::ZlibDecompressorT<cybozu::StringInputStream, 16> *z; ZD(int s) : Step(s) { { cybozu::StringOutputStream os(c); cybozu::ZlibCompressorT<cybozu::StringOutputStream> w(os, s % 2); S d = data(400); w.write(d.data(), d.size()); w.flush(); } is = new cybozu::StringInputStream(c); z = new cybozu::ZlibDecompressorT<cybozu::StringInputStream, 16>(*is, s % 2); } ~ZD() { delete z; delete is; } void step(int k, Ob& o) { char b[120]; size_t n = k == 2 ? (z->read(b, 90), 90) : z->readSome(b, 1 + R.below(100)); o << S(b, n); } };
struct CsvR : Step { S t; std::istringstream *is; cybozu::CsvReaderT<std::istringstream> *r; CsvR(int s) : Step(s) { for (int i = 0; i < 3 * STEPS; i++) { t += "a" + S(R.below(9), 'x') + ",\"q" + S(R.below(40), "yz,\n"[i % 4]) + "\"\n"; } is = new std::istringstream(t); r = new cybozu::CsvReaderT<std::istringstream>(*is); } ~CsvR() { delete r; delete is; } void step(int, Ob& o) { SV v; o << r->read(v); for (size_t i = 0; i < v.size(); i++) o << v[i]; } };
struct CsvW : Step { std::ostringstream os; cybozu::CsvWriterT<std::ostringstream> w; CsvW(int s) : Step(s), w(os, s % 2 ? ',' : '\t') {} void step(int, Ob& o) { SV v; for (int i = 0; i < 3; i++) v.push_back(word(R.below(9))); w.write(v.begin(), v.end()); o << os.str(); } };
struct Rd { S d; size_t p; Rd(const S& s) : d(s), p(0) {} size_t readSome(void *b, size_t n) { n = (std::min)((std::min)(n, d.size() - p), size_t(7)); memcpy(b, d.data() + p, n); p += n; return n; } };
struct Line : Step { Rd *rd; cybozu::LineStreamT<Rd> *l; Line(int s) : Step(s) { S t; for (int i = 0; i < 2 * STEPS; i++) { S w = data(R.below(30)); for (size_t j = 0; j < w.size(); j++) if (w[j] == '\n') w[j] = 'n'; t += w + "\r\n"; } rd = new Rd(t); l = new cybozu::LineStreamT<Rd>(*rd, 64); } ~Line() { delete l; delete rd; } void step(int, Ob& o) { S w; if (l->next(w)) o << w; } };
struct B64 : Step { S out; cybozu::StringOutputStream os; cybozu::Base64Decoder<cybozu::StringOutputStream> d; S enc; size_t p; B64(int s) : Step(s), os(out), d(os), p(0) { S x = data(130); cybozu::StringInputStream is(x); cybozu::StringOutputStream e(enc); cybozu::EncodeToBase64(e, is, 20); } void step(int k, Ob& o) { size_t n = k == STEPS - 1 ? enc.size() - p : 20 + R.below(20); d.write(enc.data() + p, n); p += n; if (k == STEPS - 1) { d.flush(); } o << out; S x = data(30), y, z; { cybozu::StringInputStream is(x); cybozu::StringOutputStream q(y); cybozu::EncodeToBase64(q, is); } { cybozu::StringInputStream is(y); cybozu::StringOutputStream q(z); cybozu::DecodeFromBase64(q, is); } o << y << z; } };
struct Gens : Step { cybozu::XorShift a; cybozu::XorShift128Plus b; cybozu::Xoroshiro128Plus c; cybozu::Pcg32 d; cybozu::nlp::NormalRandomGenerator n; Gens(int s) : Step(s), a(s, 2, 3, 4), b(s, 9), c(s, 5), d(s), n(0, 1, s) {} void step(int, Ob& o) { char x[13]; a.read(x, 13); o << S(x, 13) << a.get32() << a.get64() << b.get64() << c.get64() << b.get32() << d.get32() << d.get64(); o << n.get() << n.get() << n.get(); std::vector<int> v(9); for (int i = 0; i < 9; i++) v[i] = i; cybozu::shuffle(v, b); for (int i = 0; i < 9; i++) o << v[i]; } };
struct Bits : Step { cybozu::BitVector v; Bits(int s) : Step(s) {} void step(int k, Ob& o) { v.append(R.u64(), 1 + R.below(64)); v.set(R.below(v.size()), k % 2); cybozu::BitVector e; v.extract(e, v.size() / 3, v.size() / 2); for (size_t i = 0; i < v.size(); i++) o << v.get(i); for (size_t i = 0; i < e.size(); i++) o << e.get(i); } };
template<class V> struct Rank : Step { V v; size_t n; Rank(int s) : Step(s), n(0) {} void step(int k, Ob& o) { if (k % 2 == 0) { std::vector<uint64_t> b(8); for (int i = 0; i < 8; i++) b[i] = R.u64() & R.u64(); n = 300 + R.below(200); v.init(&b[0], n); } for (int i = 0; i < 8; i++) { size_t p = R.below(n); o << v.get(p) << v.rank1(p) << v.rank0(p); } o << v.size(true) << v.select1(v.size(true) / 2); } };
struct CSuc : Step { cybozu::CSucVector v; size_t n; CSuc(int s) : Step(s), n(0) {} void step(int k, Ob& o) { if (k % 2 == 0) { std::vector<uint64_t> b(8); for (int i = 0; i < 8; i++) b[i] = R.u64() & R.u64() & R.u64(); n = 300 + R.below(200); v.init(&b[0], n); } for (int i = 0; i < 8; i++) { size_t p = R.below(n); o << v.get(p) << (uint64_t)v.rank1(p); } S t; cybozu::StringOutputStream os(t); v.save(os); o << t; } };
struct Wave : Step { cybozu::WaveletMatrixT<> w; Wave(int s) : Step(s) {} void step(int k, Ob& o) { if (k % 2 == 0) { std::vector<uint8_t> v; for (int i = 0; i < 200; i++) v.push_back((uint8_t)R.below(16)); w.init(v, 4); } for (int i = 0; i < 8; i++) { size_t p = R.below(200), x = R.below(16); o << w.get(p) << w.rank(x, p) << w.rankLt(x, p) << w.size(x); if (w.size(x)) o << w.select(x, w.size(x) - 1); } } };
struct Fm : Step { cybozu::FMindexT<uint8_t> f; Fm(int s) : Step(s) {} void step(int k, Ob& o) { if (k % 2 == 0) { S t; for (int i = 0; i < 60; i++) t += "abc"[R.below(3)]; f.init(t.begin(), t.end(), 4); } size_t b = 0, e = 0; S key(1, "abc"[R.below(3)]); key += "abc"[R.below(3)]; o << f.getRange(&b, &e, key); for (size_t i = b; i < e; i++) { S p; f.getPrevString(p, i, 5); o << (uint64_t)f.convertPosition(i) << p; } } };
struct Freq : Step { cybozu::Frequency<uint8_t> a; cybozu::Frequency<S> b; Freq(int s) : Step(s) {} void step(int, Ob& o) { for (int i = 0; i < 9; i++) { a.append((uint8_t)R.below(5)); b.append(word(1)); } a.ready(); b.ready(); for (size_t i = 0; i < a.size(); i++) o << a.getElement(i) << (uint64_t)a.getFrequency(a.getElement(i)); for (size_t i = 0; i < b.size(); i++) o << (uint64_t)b.getFrequency(b.getElement(i)); } };
struct Top : Step { cybozu::nlp::TopScore<int> t; Top(int s) : Step(s), t(3 + s % 3) {} void step(int k, Ob& o) { for (int i = 0; i < 5; i++) t.add((double)R.below(1000000), k * 5 + i); const cybozu::nlp::TopScore<int>::Table& r = t.getTable(); for (size_t i = 0; i < r.size(); i++) o << r[i].score << r[i].idx; } };
struct Sparse : Step { typedef cybozu::nlp::SparseVector<int, cybozu::nlp::option::CompressedPositionTbl> V; V v, w; uint64_t p; Sparse(int s) : Step(s), p(0) {} void step(int, Ob& o) { for (int i = 0; i < 4; i++) { p += 1 + R.below(70000); v.push_back(p, (int)R.below(100)); if (R.chance(1, 2)) w.push_back(p, 3); } for (V::const_iterator i = v.begin(), e = v.end(); i != e; ++i) o << (uint64_t)i->pos() << i->val(); double d; cybozu::nlp::InnerProduct(&d, v, w); o << d; S t; cybozu::StringOutputStream os(t); v.save(os); o << t; } };
struct Tf : Step { cybozu::nlp::TfIdf t; Tf(int s) : Step(s) {} void step(int k, Ob& o) { for (int i = 0; i < 5; i++) t.append(S(1, char('a' + R.below(5)))); t.endDoc(); if (k == STEPS - 1) { t.term(); for (size_t i = 0; i < t.sv_.size(); i++) for (cybozu::nlp::DoubleSvec::const_iterator j = t.sv_[i].begin(), e = t.sv_[i].end(); j != e; ++j) o << (uint64_t)j->pos() << j->val(); } } };
struct Arr : Step { cybozu::AlignedArray<int, 32> a; Arr(int s) : Step(s) {} void step(int k, Ob& o) { a.resize(5 + R.below(40), true); for (size_t i = 0; i < a.size(); i += 3) a[i] = (int)R.below(99); cybozu::AlignedArray<int, 32> b(a); for (size_t i = 0; i < b.size(); i++) o << b[i]; } };
struct Str : Step { cybozu::String s; Str(int x) : Step(x) {} void step(int, Ob& o) { S w = word(12) + "\xe3\x81\x82"; s += cybozu::String(w); s.insert(s.size() / 2, cybozu::String("xy")); o << s.toUtf8() << (uint64_t)s.toUtf16().size() << (uint64_t)s.find(cybozu::String("b")); cybozu::String16 u = cybozu::ToUtf16(w); o << cybozu::ToUtf8(u); cybozu::String l; cybozu::ToLower(l, s); cybozu::Trim(l); o << l.toUtf8(); SV p; cybozu::Split(p, w, ','); for (size_t i = 0; i < p.size(); i++) o << p[i]; o << cybozu::CaseCompare(w, word(12)) << (uint64_t)std::hash<cybozu::String>()(s); } };
struct Xml : Step { cybozu::MiniXml *x; Xml(int s) : Step(s), x(0) {} ~Xml() { delete x; } void step(int k, Ob& o) { if (k % 2 == 0) { S t = "<?xml version=\"1.0\"?><r k='" + S(1 + R.below(5), 'v') + "'>"; for (int i = 0; i < 3; i++) t += "<e" + S(1, char('a' + i)) + ">" + S(R.below(9), 't') + "</e" + S(1, char('a' + i)) + ">"; t += "</r>"; cybozu::MiniXml *y = new cybozu::MiniXml; y->parse(t.data(), t.data() + t.size()); delete x; x = y; } std::ostringstream os; os << x->get(); o << os.str(); const cybozu::minixml::Node *n = x->get().getFirstTagByName("eb"); if (n) o << n->content; S w = word(9) + "<&>"; o << cybozu::minixml::escape(w) << cybozu::minixml::unescape(cybozu::minixml::escape(w)); } };
struct Conf : Step { cybozu::Config c; Conf(int s) : Step(s) {} void step(int k, Ob& o) { std::ostringstream os; os << "a" << k << "=" << R.below(1000) << "\n[s" << k << "]\nx=" << word(3).substr(0, 0) << R.below(77) << "\n"; std::istringstream is(os.str()); c.load(is); o << c.toString(); int v = c.getSection("").getValue(cybozu::String().toUtf8() + "a" + char('0' + k)); o << v; } };
struct Opts : Step { Opts(int s) : Step(s) {} void step(int, Ob& o) { cybozu::Option p; int n; S name; std::vector<int> v; bool f; p.appendOpt(&n, 5, "n", ": n"); p.appendVec(&v, "v"); p.appendBoolOpt(&f, "f"); p.appendParam(&name, "name"); char b[32]; snprintf(b, sizeof(b), "%d", (int)R.below(1000)); char c[32]; snprintf(c, sizeof(c), "%dk", (int)R.below(1000)); const char *a[] = { "prog", "-n", c, "-f", "-v", b, "7", "-f", "file" }; o << p.parse(R.chance(1, 2) ? 7 : 7, a); a[5] = b; const char *q[] = { "prog", "-n", c, b }; cybozu::Option p2; S w; int m; p2.appendOpt(&m, 5, "n", ": n"); p2.appendParam(&w, "w"); o << p2.parse(4, q) << m << w; std::ostringstream os; os << p2; o << os.str(); } };
struct Js : Step { cybozu::Json::Value v; Js(int s) : Step(s) {} static void put(Ob& o, const cybozu::Json::Value& v) { if (v.isNumber()) o << v.getNumber(); else if (v.isString()) o << v.getString(); else if (v.isArray()) for (size_t i = 0; i < v.getArray().size(); i++) put(o, v.getArray()[i]); else o << 7; } void step(int k, Ob& o) { cybozu::Json::Array a; a.push_back(v); a.push_back(cybozu::Json::Value((double)R.below(1000))); a.push_back(cybozu::Json::Value(word(4))); v = cybozu::Json::Value(a); put(o, v); } };
struct Ser : Step { S d; cybozu::StringOutputStream os; cybozu::StringInputStream *is; Ser(int s) : Step(s), os(d), is(0) {} ~Ser() { delete is; } void step(int k, Ob& o) { std::vector<int> v; std::map<S, uint64_t> m; for (int i = 0; i < 6; i++) { v.push_back((int)R.u64()); m[word(3)] = R.u64() >> R.below(64); } cybozu::save(os, v); cybozu::save(os, m); cybozu::save(os, word(20)); o << d; if (k == STEPS - 1) { is = new cybozu::StringInputStream(d); for (int i = 0; i < STEPS; i++) { std::vector<int> x; std::map<S, uint64_t> y; S z; cybozu::load(x, *is); cybozu::load(y, *is); cybozu::load(z, *is); o << (uint64_t)x.size() << x[0] << z; for (std::map<S, uint64_t>::iterator j = y.begin(); j != y.end(); ++j) o << j->first << j->second; } } } };
struct Num : Step { Num(int s) : Step(s) {} void step(int, Ob& o) { for (int i = 0; i < 5; i++) { uint64_t x = R.u64() >> R.below(64); S s = cybozu::itoa(x), t = cybozu::itoa((int)x), h = cybozu::itohex(x), b = cybozu::itobin(x); o << s << t << h << b; uint64_t y = cybozu::atoi(s); int z = cybozu::atoi(t); uint64_t q = cybozu::hextoi(h); o << y << z << q; char c[8]; cybozu::Set32bitAsBE(c, (uint32_t)x); o << cybozu::Get32bitAsLE(c) << cybozu::byteSwap((uint32_t)x); } } };
struct Txt : Step { cybozu::Exception *e; Txt(int s) : Step(s), e(new cybozu::Exception("name")) {} ~Txt() { delete e; } void step(int, Ob& o) { S w = word(R.below(300)); for (size_t i = 0; i < w.size(); i++) if (!w[i]) w[i] = 'z'; S f; cybozu::format(f, "%s-%d", w.c_str(), (int)R.below(99)); o << f; *e << w << (int)R.below(100); o << e->toString(); o << cybozu::ErrorNo((int)R.below(30)).toString() << cybozu::ErrorNo(1000 + (int)R.below(3000)).toString(); } };
struct Tim : Step { cybozu::Time t; Tim(int s) : Step(s) {} void step(int, Ob& o) { t.setTime((time_t)R.below(2000000000), (int)R.below(1000)); S a = t.toString(true); o << a << t.toString("%Y/%m/%d %H:%M:%S"); cybozu::Time u; u.fromString(t.toString(true)); o << (uint64_t)u.getTime() << u.getMsec(); std::ostringstream os; os << t; o << os.str(); } };
struct Nam : Step { Nam(int s) : Step(s) {} void step(int, Ob& o) { S w = word(5) + ".cpp", suf; o << cybozu::GetBaseName(w, &suf) << suf << cybozu::HasExtension(w, "cpp"); cybozu::ReplaceBackSlash(w); o << w << cybozu::DoesFileExist("/nonexistent-" + S("x")); } };
static pthread_mutex_t idm = PTHREAD_MUTEX_INITIALIZER; static int ids;
struct Fil : Step { S n; cybozu::File f; Fil(int s) : Step(s) { pthread_mutex_lock(&idm); char b[64]; snprintf(b, sizeof(b), "indep.%d.%d", (int)getpid(), ids++); pthread_mutex_unlock(&idm); n = b; f.openW(n); } ~Fil() { f.close(); unlink(n.c_str()); } void step(int, Ob& o) { S d = data(50); f.write(d.data(), d.size()); o << (uint64_t)f.getSize() << cybozu::GetFileSize(n); cybozu::Mmap m(n); o << S(m.get(), m.size()); cybozu::File r; r.openR(n); S x((size_t)m.size(), 0); r.read(&x[0], x.size()); o << x; } };
struct Evt : Step { cybozu::Event e; cybozu::Mutex m; cybozu::Tls t; int own; Evt(int s) : Step(s), own(s) {} void step(int k, Ob& o) { cybozu::AutoLock l(m); if (k % 2 == 0) { e.wakeup(); e.wait(); } int *p = (int*)t.get(); o << (p == 0); if (!p) { t.set(&own); p = (int*)t.get(); } o << (p ? *p : -1); } };
struct PBody { std::vector<int> v; PBody() : v(40) {} bool operator()(size_t i, size_t) { v[i] += (int)i + 1; return true; } };
struct Par : Step { PBody b; Par(int s) : Step(s) {} void step(int k, Ob& o) { cybozu::parallel_for(b, size_t(10 + R.below(30)), size_t(1 + k % 3)); for (size_t i = 0; i < b.v.size(); i++) o << b.v[i]; } };
template<class T> Step *mk(int s) { return new T(s); }
struct Kind { const char *n; Step *(*f)(int); };
static const Kind kinds[] = { { "sha1", mk<Dig<cybozu::Sha1> > }, { "sha256", mk<Dig<cybozu::Sha256> > }, { "sha512", mk<Dig<cybozu::Sha512> > }, { "keyed", mk<Sip> },
#ifndef CYBOZU_DONT_USE_OPENSSL
	{ "hash", mk<CHash> }, { "cipher", mk<Aes> },
#endif
	{ "compress", mk<ZC> }, { "decompress", mk<ZD> }, { "csvread", mk<CsvR> }, { "csvwrite", mk<CsvW> }, { "lines", mk<Line> }, { "base64", mk<B64> }, { "generators", mk<Gens> }, { "bitvector", mk<Bits> }, { "sucvector", mk<Rank<cybozu::SucVector> > }, { "csucvector", mk<CSuc> }, { "wavelet", mk<Wave> }, { "fmindex", mk<Fm> }, { "frequency", mk<Freq> }, { "topscore", mk<Top> }, { "sparse", mk<Sparse> }, { "tfidf", mk<Tf> }, { "array", mk<Arr> }, { "string", mk<Str> }, { "xml", mk<Xml> }, { "config", mk<Conf> }, { "option", mk<Opts> }, { "json", mk<Js> }, { "serializer", mk<Ser> }, { "numbers", mk<Num> }, { "text", mk<Txt> }, { "time", mk<Tim> }, { "names", mk<Nam> }, { "file", mk<Fil> }, { "sync", mk<Evt> }, { "parallel", mk<Par> } };
static const int K = sizeof(kinds) / sizeof(*kinds);
int once(Step *s, int k) { Ob o; try { s->step(k, o); } catch (std::exception& e) { o << "threw " << e.what(); } return o.get(); }
typedef std::vector<int> V;
V solo(int kind, int script) { V v; Step *s = kinds[kind].f(script); for (int k = 0; k < STEPS; k++) v.push_back(once(s, k)); delete s; return v; }
void logSolo(Log& L, int kind, int script) { L.about(kinds[kind].n); V v = solo(kind, script); L.ev(J("solo").str("kind", kinds[kind].n).n("script", script).nums("obs", v)); }
#ifdef THREADS
static volatile int races; extern "C" __attribute__((no_sanitize("thread"))) void __tsan_on_report(void *) { __atomic_store_n(&races, races + 1, __ATOMIC_RELAXED); } // one report at a time; not watched itself
static pthread_barrier_t gate; struct Th { int kind, script, rep; V v; bool same; static void *go(void *p) { Th *t = (Th*)p; pthread_barrier_wait(&gate); t->v = solo(t->kind, t->script); t->same = true; for (int i = 1; i < t->rep; i++) if (solo(t->kind, t->script) != t->v) t->same = false; return 0; } };
int main(int argc, char **argv) { // different objects in different threads, at the same time
	Args a(argc, argv); Rng R(a.seed); Log L(a.out, 600); pthread_barrier_init(&gate, 0, 3); for (int kind = 0; kind < K; kind++) if (a.mine(kind)) for (int q = 0; q < 3 * a.effort; q++) { L.start(); int s[3]; for (int i = 0; i < 3; i++) { s[i] = 1 + R.below(1000); logSolo(L, kind, s[i]); } L.about(kinds[kind].n); Th t[3]; pthread_t h[3]; races = 0; for (int i = 0; i < 3; i++) { t[i].kind = kind; t[i].script = s[i]; t[i].rep = 40; pthread_create(&h[i], 0, Th::go, &t[i]); } for (int i = 0; i < 3; i++) pthread_join(h[i], 0); for (int i = 0; i < 3; i++) L.ev(J("thread").str("kind", kinds[kind].n).n("script", s[i]).nums("obs", t[i].v).b("same", t[i].same)); L.ev(J("races").n("n", races)); L.end(); }
	return 0; }
#else
void play(Log& L, Rng& R, int kind, const V& sc) { // objects 1 and 2 of one class (3 mostly too), in the order of the schedule
	L.start(); int s[4], kk[4] = { 0, kind, kind, R.chance(2, 3) ? kind : (int)R.below(K) }; for (int k = 1; k < 4; k++) s[k] = 1 + R.below(k == 3 ? 3 : 1000); for (int k = 1; k < 4; k++) logSolo(L, kk[k], s[k]);
	Step *o[4] = { 0, 0, 0, 0 }; int n[4] = { 0, 0, 0, 0 };
	for (size_t j = 0; j < sc.size(); j++) { int x = sc[j]; L.about(kinds[kk[x]].n);
		if (!o[x]) { o[x] = kinds[kk[x]].f(s[x]); n[x] = 0; L.ev(J("new").n("o", x).str("kind", kinds[kk[x]].n).n("script", s[x])); }
		else if (n[x] < STEPS) { int v = once(o[x], n[x]); n[x]++; L.ev(J("step").n("o", x).n("obs", v)); }
		else { delete o[x]; o[x] = 0; L.ev(J("del").n("o", x)); } }
	for (int x = 1; x < 4; x++) delete o[x]; for (int k = 1; k < 4; k++) logSolo(L, kk[k], s[k]); L.end(); }
int main(int argc, char **argv) {
	Args a(argc, argv); Rng R(a.seed); Log L(a.out, 120); std::vector<std::vector<int> > sc = loadScript(a.script);
	size_t c = 0; for (size_t i = 0; i < sc.size(); i++) for (int r = 0; r < 8 * a.effort; r++) { int kind = (int)(c++ % K); if (a.mine(c / K)) play(L, R, kind, sc[i]); }
	for (int kind = 0; kind < K; kind++) for (int r = 0; r < 5 * a.effort; r++) { V v; for (int i = 0; i < 36; i++) v.push_back(1 + R.below(3)); play(L, R, kind, v); }
	return 0; }
#endif
