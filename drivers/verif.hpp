#pragma once
#include <sys/syscall.h>
#include <sys/mman.h>
#include <errno.h>
#include <unistd.h>
// Recording of sessions (operation histories with their observed results) from the real code.
// One JSON object per line: {"id":n,"cfg":{...},"ev":[{...},...]}
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <string>
#include <vector>
#include <exception>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=0:allocator_may_return_null=1:detect_odr_violation=0:hard_rss_limit_mb=3000"; }
#endif

namespace verif {

struct Rng { // splitmix64
	uint64_t s;
	explicit Rng(uint64_t seed = 0) : s(seed * 0x9e3779b97f4a7c15ULL + 0x1234567) {}
	uint64_t u64() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
	// [0, n)
	size_t below(size_t n) { return n == 0 ? 0 : size_t(u64() % n); }
	// [a, b]
	int64_t range(int64_t a, int64_t b) { return a + int64_t(u64() % uint64_t(b - a + 1)); }
	bool chance(int num, int den) { return below(den) < size_t(num); }
	template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct J { // JSON object builder
	std::string s;
	J() : s("{") {}
	explicit J(const char *op) : s("{") { str("op", op); }
	J& key(const char *k) { if (s.size() > 1) s += ','; s += '"'; s += k; s += "\":"; return *this; }
	static std::string num(int64_t v) {
		// TLC integers have 32 bits: anything out of range becomes a recognisable impossible value
		if (v > 2147483000LL || v < -1900000000LL) v = -1900000001LL - (int64_t)((uint64_t)v % 200000000ULL);
		char b[32]; snprintf(b, sizeof(b), "%lld", (long long)v); return b;
	}
	J& n(const char *k, int64_t v) { key(k); s += num(v); return *this; }
	// size_t with npos mapped to -1
	J& pos(const char *k, uint64_t v) { return n(k, v == ~uint64_t(0) ? -1 : (v > 0x7fffffff ? (int64_t)(0x80000000LL + (v & 0xffffff)) : (int64_t)v)); }
	J& b(const char *k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
	static std::string esc(const std::string& v) {
		std::string r = "\"";
		for (size_t i = 0; i < v.size(); i++) {
			unsigned char c = v[i];
			if (c == '"' || c == '\\') { r += '\\'; r += c; }
			else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof(t), "\\u%04x", c); r += t; }
			else r += c;
		}
		return r + "\"";
	}
	J& str(const char *k, const std::string& v) { key(k); s += esc(v); return *this; }
	J& raw(const char *k, const std::string& v) { key(k); s += v; return *this; }
	J& bytes(const char *k, const void *p, size_t len) { return raw(k, arr((const uint8_t*)p, len)); }
	J& bytes(const char *k, const std::string& v) { return bytes(k, v.data(), v.size()); }
	template<class T> static std::string arr(const T *p, size_t len) {
		std::string r = "[";
		for (size_t i = 0; i < len; i++) { if (i) r += ','; r += num((int64_t)p[i]); }
		return r + "]";
	}
	template<class V> J& nums(const char *k, const V& v) {
		key(k); s += '['; bool first = true;
		for (typename V::const_iterator i = v.begin(); i != v.end(); ++i) { if (!first) s += ','; first = false; s += num((int64_t)*i); }
		s += ']'; return *this;
	}
	// w-bit word as little endian 16-bit limbs
	J& limbs(const char *k, uint64_t v, int nlimb = 4) {
		key(k); s += '[';
		for (int i = 0; i < nlimb; i++) { if (i) s += ','; s += num((v >> (16 * i)) & 0xffff); }
		s += ']'; return *this;
	}
	std::string end() const { return s + "}"; }
};
inline std::string jlist(const std::vector<std::string>& v) {
	std::string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ','; r += v[i]; } return r + "]";
}
inline std::string jbytes(const std::string& v) { return J::arr((const uint8_t*)v.data(), v.size()); }
inline std::string jbytesList(const std::vector<std::string>& v) {
	std::vector<std::string> t; for (size_t i = 0; i < v.size(); i++) t.push_back(jbytes(v[i])); return jlist(t);
}

class Log {
	int fd_;
	std::string out_;   // finished sessions not yet written
	std::string cur_;   // current session
	bool inSession_, first_;
	size_t id_, events_;
	char pending_[256];
	unsigned limit_;
	static Log*& self() { static Log *p = 0; return p; }
	static void writeAll(int fd, const char *p, size_t n) { while (n) { ssize_t r = ::write(fd, p, n); if (r <= 0) break; p += r; n -= r; } }
	void die(const char *kind, int sig) {
		if (inSession_) {
			std::string tail;
			char b[512];
			char name[256]; size_t k = 0;
			for (const char *q = pending_; *q && k < 255; q++) { unsigned char c = *q; if (c < 32 || c > 126 || c == '"' || c == '\\') c = '.'; name[k++] = c; }
			name[k] = 0;
			snprintf(b, sizeof(b), "%s{\"op\":\"%s\",\"sig\":%d,\"in\":\"%s\"}]}\n", first_ ? "" : ",", kind, sig, name);
			writeAll(fd_, out_.data(), out_.size());
			writeAll(fd_, cur_.data(), cur_.size());
			writeAll(fd_, b, strlen(b));
			out_.clear();
			inSession_ = false;
		} else {
			writeAll(fd_, out_.data(), out_.size());
			out_.clear();
		}
		fsync(fd_);
	}
	static void onSignal(int sig) {
		bool h = sig == SIGALRM || sig == SIGPROF; if (self()) self()->die(h ? "hang" : "crash", sig);
		_exit(h ? 78 : 77);
	}
	static void onExit() { if (self()) self()->die("crash", 0); } // the code under test left the program
	static void onDeath() { if (self()) self()->die("crash", 0); }
public:
	explicit Log(const char *path, unsigned limitSec = 60) : inSession_(false), first_(true), id_(0), events_(0), limit_(limitSec) {
		fd_ = ::open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
		if (fd_ < 0) { perror(path); exit(2); }
		pending_[0] = 0;
		self() = this;
		atexit(onExit);
		int sigs[] = { SIGABRT, SIGALRM, SIGPROF, SIGFPE, SIGILL
#if !defined(__SANITIZE_ADDRESS__)
			, SIGSEGV, SIGBUS
#endif
		};
		static char alt[65536];
		stack_t ss; memset(&ss, 0, sizeof(ss)); ss.ss_sp = alt; ss.ss_size = sizeof(alt); sigaltstack(&ss, 0);
		for (size_t i = 0; i < sizeof(sigs) / sizeof(sigs[0]); i++) {
			struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK; sigaction(sigs[i], &sa, 0);
		}
#if defined(__SANITIZE_ADDRESS__)
		__sanitizer_set_death_callback(onDeath);
#elif !defined(__SANITIZE_THREAD__)
		struct rlimit rl = { 6ull << 30, 6ull << 30 }; setrlimit(RLIMIT_AS, &rl); // run-away memory use ends the driver, not the machine
#endif
	}
	// seconds of computation and of real time a session may take (a busy machine must not look like a hang)
	static void limits(unsigned cpu, unsigned wall) { ::alarm(wall); struct itimerval t; memset(&t, 0, sizeof(t)); t.it_value.tv_sec = cpu; ::setitimer(ITIMER_PROF, &t, 0); }
	~Log() { flush(); limits(0, 0); ::close(fd_); self() = 0; }
	void flush() { writeAll(fd_, out_.data(), out_.size()); out_.clear(); }
	void start(const std::string& cfg = "") {
		limits(limit_, limit_ < 60 ? 120 : 2 * limit_);
		char b[64]; snprintf(b, sizeof(b), "{\"id\":%u,", (unsigned)++id_);
		cur_ = b;
		if (!cfg.empty()) cur_ += "\"cfg\":" + cfg + ",";
		cur_ += "\"ev\":[";
		first_ = true; inSession_ = true; pending_[0] = 0;
	}
	// name the operation about to be performed (for crash/hang reports)
	void about(const std::string& what) { strncpy(pending_, what.c_str(), sizeof(pending_) - 1); pending_[sizeof(pending_) - 1] = 0; }
	void ev(const std::string& e) { if (!first_) cur_ += ','; first_ = false; cur_ += e; events_++; }
	void ev(const J& j) { ev(j.end()); }
	void end() {
		cur_ += "]}\n"; out_ += cur_; cur_.clear(); inSession_ = false;
		if (out_.size() > 1 << 20) flush();
	}
	// end the session unless one with the same events is already there
	template<class Set> bool endOnce(Set& seen) { std::string k = cur_.substr(cur_.find(',')); if (!seen.insert(k).second) { drop(); return false; } end(); return true; }
	void drop() { cur_.clear(); inSession_ = false; } // forget this session
	static void detach() { self() = 0; } // a forked child writes nothing
	size_t sessions() const { return id_; }
	size_t events() const { return events_; }
};

// whatever the caller of the checks ignores or blocks (nohup, background jobs) must not reach the code under test
inline void ownSignals() {
	for (int i = 1; i < 32; i++) { struct sigaction s; if (i != SIGKILL && i != SIGSTOP && sigaction(i, 0, &s) == 0 && s.sa_handler == SIG_IGN) signal(i, SIG_DFL); }
	sigset_t m; sigemptyset(&m); sigprocmask(SIG_SETMASK, &m, 0);
}
struct Args {
	const char *out; uint64_t seed; int effort; const char *script; int shard; int shards;
	Args(int argc, char **argv) : out(argc > 1 ? argv[1] : "/dev/stdout"), seed(argc > 2 ? strtoull(argv[2], 0, 10) : 1), effort(argc > 3 ? atoi(argv[3]) : 1), script(argc > 4 && argv[4][0] != '-' ? argv[4] : 0), shard(argc > 5 ? atoi(argv[5]) : 0), shards(argc > 6 ? atoi(argv[6]) : 1) { ownSignals(); }
	bool mine(size_t i) const { return int(i % shards) == shard; }
};

// lines of a script: integers separated by blanks
inline std::vector<std::vector<int> > loadScript(const char *path) {
	std::vector<std::vector<int> > r;
	if (!path) return r;
	FILE *fp = fopen(path, "r"); if (!fp) { perror(path); exit(2); }
	std::vector<char> buf(1 << 20);
	while (fgets(&buf[0], (int)buf.size(), fp)) {
		std::vector<int> v; char *p = &buf[0];
		for (;;) { char *e; long x = strtol(p, &e, 10); if (e == p) break; v.push_back((int)x); p = e; }
		r.push_back(v);
	}
	fclose(fp);
	return r;
}

// instances too large to log
inline std::string bigData(size_t n, uint64_t seed) { std::string s(n, 0); uint64_t x = seed * 0x9E3779B97F4A7C15ull + 1; for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; s[i] = (char)(x >> 24); } return s; }
inline std::vector<size_t> bigSizes(const Args& a, size_t cap) { // sizes of this shard
	static const size_t t[] = { 127, 128, 255, 256, 257, 511, 513, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10007, 16383, 16385, 32767, 32768, 32769, 50000, 65535, 65536, 65537, 70001, 100003, 131071, 131073, 262145, 524289, 1048577, 2097153, 4194305, 8388609, 16777217 };
	std::vector<size_t> r; for (size_t i = 0; i < sizeof(t) / sizeof(*t); i++) if (t[i] <= cap && a.mine(i)) r.push_back(t[i]); return r; }
inline void bigEvent(Log& L, const char *what, size_t n, size_t m, bool same) { L.ev(J("big").str("what", what).n("n", (long long)n).n("m", (long long)m).b("same", same)); }
// transfers beyond 2^31 and 2^32 bytes: the buffer is address space nobody touches; the stand-in of the system (or stream) that
// gets the pieces checks that they follow one another and are no more than what is left, and takes part of each
struct Vast {
	char *p; size_t n, done, piece; bool bad;
	static Vast *&cur() { static Vast *v = 0; return v; }
	Vast(size_t n, size_t piece) : n(n), done(0), piece(piece), bad(false) { p = (char*)(void*)syscall(SYS_mmap, (void*)0, n + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, (long)0); cur() = this; }
	~Vast() { cur() = 0; syscall(SYS_munmap, p, n + 4096); }
	ssize_t take(const void *q, size_t k) { if (bad || q != p + done || k == 0 || k > n - done) { bad = true; errno = EIO; return -1; } if (k > piece) k = piece; done += k; return (ssize_t)k; }
	bool all() const { return !bad && done == n; }
	static size_t size(size_t i) { static const size_t t[] = { 0x7fffffff, 0x80000000ull, 0x80000005ull, 0xffffffffull, 0x100000000ull, 0x100000009ull, 0x280000003ull }; return t[i % 7]; }
	static size_t part(size_t i) { static const size_t t[] = { 0x7fffffff, 0x7ffff000, 0x40000001 }; return t[i % 3]; }
};
inline void vastEvent(Log& L, const char *what, const Vast& v, bool ok) { L.ev(J("big").str("what", what).n("n", (long long)(v.n >> 20)).n("m", (long long)(v.done >> 20)).b("same", ok && v.all())); }

// stream that returns scripted short reads
struct ShortReader {
	const std::string data; size_t pos; std::vector<size_t> sizes; size_t idx; size_t calls;
	ShortReader(const std::string& d, const std::vector<size_t>& sz) : data(d), pos(0), sizes(sz), idx(0), calls(0) {}
	size_t readSome(void *buf, size_t size) {
		calls++;
		size_t n = data.size() - pos;
		if (n > size) n = size;
		if (!sizes.empty()) { size_t lim = sizes[idx++ % sizes.size()]; if (lim == 0) lim = 1; if (n > lim) n = lim; }
		if (n) memcpy(buf, data.data() + pos, n);
		pos += n;
		return n;
	}
};

inline std::vector<size_t> randomSizes(Rng& r) {
	std::vector<size_t> v;
	switch (r.below(6)) {
	case 0: break; // whole
	case 1: v.push_back(1); break;
	case 2: v.push_back(1 + r.below(4)); break;
	case 3: { size_t n = 1 + r.below(5); for (size_t i = 0; i < n; i++) v.push_back(1 + r.below(9)); break; }
	case 4: { size_t n = 1 + r.below(5); for (size_t i = 0; i < n; i++) v.push_back(1 + r.below(100)); break; }
	case 5: { size_t n = 1 + r.below(4); for (size_t i = 0; i < n; i++) v.push_back(r.chance(1, 2) ? 1 : 1 + r.below(5000)); break; }
	}
	return v;
}

} // verif
