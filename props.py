"""Registry: which models, drivers and trace specifications decide each property."""
PROPS = {}
NA = {}
PROPS["P06"] = dict(
    mc=[dict(module="BitVectorMC", cfg="BitVectorMC", gen="bv"), dict(module="BitVectorMC", cfg="BitVectorMC2")],
    drivers=[dict(src="bitvector.cpp", trace="BitVectorTrace", script="bv", effort=1, effort_thorough=12, shards=4, shards_thorough=8)],
    ops=["init", "resize", "clear", "appendArr", "appendWord", "appendVec", "set", "get", "copy", "swap", "extractWord", "extractArr", "extractVec", "eq", "blockset", "blockget", "copybit", "shl"],
    assumptions=["vectors up to a few hundred bits; word types of 8, 16, 32 and 64 bits"])
PROPS["P01"] = dict(
    mc=[dict(module="SerializerMC", cfg="SerializerMC"), dict(module="SerializerMC", cfg="SerializerMC4")],
    drivers=[dict(src="serializer.cpp", opt=["-O0"], trace="SerializerTrace", shards=4, shards_thorough=8, effort_thorough=12),
             dict(src="serializer.cpp", opt=["-O0"], name="serializer_fixed", flags=["-DCYBOZU_SERIALIZER_FIXED_SIZE_INTEGER"], trace="SerializerTrace", shards=2, effort_thorough=6)],
    ops=["save", "load", "truncate", "raw"],
    assumptions=["little-endian host; the listed instantiations of the serializer templates"])
PROPS["P02"] = dict(
    mc=[dict(module="StreamMC", cfg="StreamMC", gen="st")],
    drivers=[dict(src="stream.cpp", trace="StreamTrace", script="st", shards=4, effort_thorough=20)],
    ops=["readSome", "read", "readChar", "write", "content", "break"],
    assumptions=["streams up to a few hundred bytes"])
PROPS["P03"] = dict(
    mc=[dict(module="LineStreamMC", cfg="LineStreamMC", gen="ls"), dict(module="LineStreamMC", cfg="LineStreamMC2", thorough_only=True)],
    drivers=[dict(src="line_stream.cpp", trace="LineStreamTrace", script="ls", shards=4, effort_thorough=12)],
    ops=["next", "remain"],
    assumptions=["a reader returns at least one byte until the end of its data"])
PROPS["P04"] = dict(
    mc=[dict(module="CsvMC", cfg="CsvMC", gen="csv"), dict(module="CsvMC", cfg="CsvMC8", thorough_only=True)],
    drivers=[dict(src="csv.cpp", trace="CsvTrace", script="csv", shards=4, effort_thorough=12)],
    ops=["write", "text", "read", "sep"],
    assumptions=["fields are UTF-8 (documented), so byte 0xFF does not occur"])
PROPS["P05"] = dict(
    mc=[dict(module="Base64MC", cfg="Base64MC", gen="b64")],
    drivers=[dict(src="base64.cpp", trace="Base64Trace", script="b64", shards=4, effort_thorough=12)],
    ops=["enc", "dec", "back", "feed", "flush"],
    assumptions=[])
PROPS["P07"] = dict(
    mc=[dict(module="RankSelectMC", cfg="RankSelectMC", gen="rs"), dict(module="RankSelectMC", cfg="RankSelectMC12", thorough_only=True)],
    drivers=[dict(src="rankselect.cpp", trace="RankSelectTrace", script="rs", shards=4, effort_thorough=12)],
    ops=["init", "initRuns", "saveload", "getAll", "rankAll", "selAll", "size", "count", "rank", "select", "get", "getBad"],
    assumptions=["rank at positions up to the size", "bit sequences up to a few hundred thousand bits"])
PROPS["P08"] = dict(
    mc=[dict(module="WaveletMC", cfg="WaveletMC", gen="wm"), dict(module="WaveletMC", cfg="WaveletMC3", thorough_only=True)],
    drivers=[dict(src="wavelet.cpp", trace="WaveletTrace", script="wm", shards=4, effort_thorough=12),
             dict(src="wavelet.cpp", name="wavelet_direct", flags=["-DCYBOZU_WAVELET_MATRIX_DIRECT_CONSTRUCT"], trace="WaveletTrace", shards=1, effort_thorough=4)],
    ops=["init", "saveload", "size", "getAll", "rankAll", "ltAll", "selAll", "getRank"],
    assumptions=["value width 1 to 16 (larger widths are rejected by the code)", "sequences up to a few thousand values"])
PROPS["P09"] = dict(
    mc=[dict(module="FMIndexMC", cfg="FMIndexMC", gen="fm"), dict(module="FMIndexMC", cfg="FMIndexMC8", thorough_only=True)],
    drivers=[dict(src="fmindex.cpp", trace="FMIndexTrace", script="fm", shards=4, effort_thorough=12),
             dict(src="fmindex.cpp", name="fmindex_csuc", flags=["-DCYBOZU_FMINDEX_USE_CSUCVECTOR"], trace="FMIndexTrace", script="fm", shards=2, effort_thorough=6)],
    ops=["init", "badskip", "saveload", "query", "prev"],
    assumptions=["patterns over symbols admissible in a text (raw mode excludes 0)", "texts up to several hundred symbols", "alphabet types uint8_t and uint16_t"])
PROPS["P10"] = dict(
    mc=[dict(module="FrequencyMC", cfg="FrequencyMC", gen="fq")],
    drivers=[dict(src="frequency.cpp", trace="FrequencyTrace", script="fq", shards=4, effort_thorough=20)],
    ops=["append", "init", "construct", "ready", "clear", "copy", "saveload", "freqs", "table", "badElem"],
    assumptions=["the ranking is asked for after ready(), as documented by the interface", "element types uint8_t, char, uint16_t, int, std::string"])
PROPS["P11"] = dict(
    mc=[dict(module="AtoiMC", cfg="AtoiMC", gen="at"), dict(module="AtoiMC", cfg="AtoiMC6", thorough_only=True)],
    drivers=[dict(src="atoi.cpp", trace="AtoiTrace", script="at", shards=4, effort_thorough=20)],
    ops=["parse"],
    assumptions=["a text without explicit length is NUL-terminated", "64-bit long"])
PROPS["P12"] = dict(
    mc=[dict(module="ItoaMC", cfg="ItoaMC", gen="it"), dict(module="ItoaMC", cfg="ItoaMC120", thorough_only=True)],
    drivers=[dict(src="itoa.cpp", trace="ItoaTrace", script="it", shards=4, effort_thorough=20)],
    ops=["dec", "decz", "pow2", "buf", "fixed", "back"],
    assumptions=["64-bit long"])
PROPS["P13"] = dict(
    mc=[dict(module="EndianMC", cfg="EndianMC", gen="en")],
    drivers=[dict(src="endian.cpp", trace="EndianTrace", script="en", shards=4, effort_thorough=30),
             dict(src="endian.cpp", name="endian_generic", flags=["-DCYBOZU_ENDIAN=2", "-DCYBOZU_ENDIAN_LITTLE=1", "-DCYBOZU_ENDIAN_BIG=2"], trace="EndianTrace", shards=1, effort_thorough=30)],
    ops=["set", "get", "swap", "bsf", "bsr", "popcnt", "mask"],
    assumptions=["bit scans are not defined for 0, masks for widths of 64 and more"])
PROPS["P14"] = dict(
    mc=[dict(module="ConfigMC", cfg="ConfigMC", gen="cf"), dict(module="ConfigMC", cfg="ConfigMC6", thorough_only=True)],
    drivers=[dict(src="config.cpp", trace="ConfigTrace", script="cf", shards=4, effort_thorough=12)],
    ops=["load", "dump", "str", "reload", "addSec", "putSec", "nofile", "add", "hasSec", "query", "getStr", "getInt"],
    assumptions=["values added through the interface contain no line ends", "the content after a rejected load is not specified"])
PROPS["P15"] = dict(
    mc=[dict(module="OptionMC", cfg="OptionMC", gen="op"), dict(module="OptionMC", cfg="OptionMC6", thorough_only=True)],
    drivers=[dict(src="option.cpp", trace="OptionTrace", script="op", shards=4, effort_thorough=12)],
    ops=["parse", "conv", "badDecl", "help", "show", "usage", "unknown"],
    assumptions=["variables of integer and text types", "one parse per Option object", "printed lists of 8 bit integers are not compared"])
PROPS["P16"] = dict(
    mc=[dict(module="XmlMC", cfg="XmlMC", gen="xm"), dict(module="XmlMC", cfg="XmlMC6", thorough_only=True)],
    drivers=[dict(src="xml.cpp", trace="XmlTrace", script="xm", shards=4, effort_thorough=12)],
    ops=["esc", "unesc", "parse", "find", "attr"],
    assumptions=["supported subset: header, elements, attributes, one run of text per element (leading white space skipped), names of ASCII letters, digits and _ : - ."])
PROPS["P17"] = dict(
    mc=[dict(module="UtfMC", cfg="UtfMC", gen="utf"), dict(module="UtfMC", cfg="UtfMC4", thorough_only=True)],
    drivers=[dict(src="utf.cpp", trace="UtfTrace", script="utf", shards=4, effort_thorough=20)],
    ops=["char", "dec8", "str8", "conv8", "dec16", "str16", "conv16", "enc"],
    assumptions=["32 bit code points (Char is wchar_t)", "the mode of Utf8ref that skips bad characters is only checked for memory safety by other properties"])
PROPS["P18"] = dict(
    mc=[dict(module="UStringMC", cfg="UStringMC", gen="us"), dict(module="UStringMC", cfg="UStringMC3", thorough_only=True)],
    drivers=[dict(src="ustring.cpp", trace="UStringTrace", script="us", shards=4, effort_thorough=20)],
    ops=["edit", "swap", "move", "concat", "both", "find", "cmp", "rel", "sub", "at"],
    assumptions=["strings up to a few hundred code points", "no move of a string to itself"])
PROPS["P19"] = dict(
    mc=[dict(module="StrOpMC", cfg="StrOpMC", gen="so"), dict(module="StrOpMC", cfg="StrOpMC6", thorough_only=True)],
    drivers=[dict(src="strop.cpp", trace="StrOpTrace", script="so", shards=4, effort_thorough=20)],
    ops=["trim", "skip", "space", "lower", "upper", "strip", "cmp", "eq", "starts", "find", "split"],
    assumptions=["a limit of at least one piece for splitting", "comparing a Unicode string with a char pointer is done with ASCII text"])
PROPS["P20"] = dict(
    mc=[dict(module="DigestMC", cfg="DigestMC", gen="dg"), dict(module="DigestMC", cfg="DigestMC5", thorough_only=True)],
    drivers=[dict(src="digest.cpp", trace="DigestTrace", script="dg", shards=4, effort_thorough=12, libs=["-lssl", "-lcrypto"]),
             dict(src="digest.cpp", name="digest_builtin", flags=["-DCYBOZU_DONT_USE_OPENSSL"], trace="DigestTrace", script="dg", shards=3, effort_thorough=12),
             dict(src="digest.cpp", name="digest_oldapi", flags=["-DCYBOZU_USE_OPENSSL_NEW_HASH=0"], trace="DigestTrace", shards=1, effort_thorough=4, libs=["-lssl", "-lcrypto"]),
             dict(src="digestbig.cpp", trace="DigestTrace", shards=3, effort_thorough=2, asan=False, opt=["-O2"], libs=["-lssl", "-lcrypto"], timeout=840),
             dict(src="digestbig.cpp", name="digestbig_builtin", flags=["-DCYBOZU_DONT_USE_OPENSSL"], trace="DigestTrace", shards=3, effort_thorough=2, asan=False, opt=["-O2"], timeout=840)],
    ops=["msg", "obj", "zeros", "hmac", "short", "sip", "aes", "aesdec", "aeskey", "name", "badname"], parallel=8,
    assumptions=["messages up to a few hundred bytes, and zeros of up to 2^29 (thorough: 2^32) bytes", "AES without padding and with a 16 byte vector, as documented", "Sha256/Sha512 objects are cleared before reuse, as documented"])
PROPS["P21"] = dict(
    mc=[dict(module="ZlibMC", cfg="ZlibMC", gen="zl"), dict(module="ZlibMC", cfg="ZlibMC4", thorough_only=True)],
    drivers=[dict(src="zlib.cpp", trace="ZlibTrace", script="zl", shards=4, effort_thorough=20, libs=["-lz"])],
    ops=["w", "fin", "out", "open", "rd", "xrd", "empty", "zc", "zu"],
    assumptions=["the coding itself is the system zlib's (environment)", "one gzip member; data behind it is left alone", "damage is a truncation or a single flipped bit, which the stream's checksum always shows"])
PROPS["P22"] = dict(
    mc=[dict(module="FileMC", cfg="FileMC", gen="fl"), dict(module="FileMC", cfg="FileMC7", thorough_only=True)],
    drivers=[dict(src="file.cpp", trace="FileTrace", script="fl", shards=4, effort_thorough=20)],
    ops=["open", "adopt", "write", "some", "read", "seek", "size", "sync", "close", "del", "isopen", "fds", "cat", "mmap", "fsize", "exist", "rename", "remove"],
    assumptions=["system call results are scripted in the driver (short counts, EINTR, EIO, ENOSPC, EACCES, ENOMEM); data reaching the kernel by fsync is not checked further", "files are not removed while open"])
PROPS["P23"] = dict(
    mc=[dict(module="PathMC", cfg="PathMC", gen="pt"), dict(module="PathMC", cfg="PathMC7", thorough_only=True)],
    drivers=[dict(src="path.cpp", trace="PathTrace", script="pt", shards=4, effort_thorough=20)],
    ops=["has", "split", "slash", "exe", "mk", "rm", "list", "exist"],
    assumptions=["the file system reports entry kinds (as ext4, tmpfs and overlayfs do)"])
PROPS["P26"] = dict(
    mc=[dict(module="EventMC", cfg="EventMC", gen="ev"), dict(module="EventMC", cfg="EventMC3", thorough_only=True)],
    drivers=[dict(src="event.cpp", trace="EventTrace", script="ev", shards=3, effort_thorough=20, asan=False, mem=True),
             dict(src="event.cpp", name="event98", trace="EventTrace", script="ev", shards=1, effort_thorough=5, asan=False, mem=True, std="gnu++98")],
    ops=["call", "ret", "stuck", "over"],
    assumptions=["schedules switch at calls into the thread library (data races between them are not explored)", "up to 5 threads"])
PROPS["P24"] = dict(
    mc=[dict(module="ParallelMC", cfg="ParallelMC", gen="pa"), dict(module="ParallelMC", cfg="ParallelMC6", thorough_only=True)],
    drivers=[dict(src="parallel.cpp", trace="ParallelTrace", script="pa", shards=4, effort_thorough=20, asan=False, mem=True)],
    ops=["call", "ret", "create", "join", "joined", "end", "left"],
    assumptions=["schedules switch at calls into the thread library and inside the body", "the number of items is not negative"])
PROPS["P25"] = dict(
    mc=[dict(module="ThreadObjMC", cfg="ThreadObjMC", gen="to"), dict(module="ThreadObjMC", cfg="ThreadObjMC5", thorough_only=True)],
    drivers=[dict(src="threadobj.cpp", trace="ThreadObjTrace", script="to", shards=4, effort_thorough=20, asan=False, mem=True)],
    ops=["call", "ret", "create", "run", "fin", "join", "joined", "detach", "over", "sleep", "stack"],
    assumptions=["schedules switch at calls into the thread library and inside the body", "an object is started again only after it was released, and lives until its body has begun (destruction from the base class)"])
PROPS["P27"] = dict(
    mc=[dict(module="LockMC", cfg="LockMC", gen="lk"), dict(module="LockMC", cfg="LockMC2", thorough_only=True)],
    drivers=[dict(src="lock.cpp", trace="LockTrace", script="lk", shards=4, effort_thorough=12, asan=False, mem=True)],
    ops=["lock", "locked", "unlock", "unlocked", "wait", "waited", "notify", "notified", "stuck", "over"],
    assumptions=["the POSIX mutex and condition are replaced by their definition (environment): any waiter may be woken, spurious wakeups happen", "up to 4 threads"])
PROPS["P28"] = dict(
    mc=[dict(module="AtomicMC", cfg="AtomicMC", gen="at"), dict(module="AtomicMC", cfg="AtomicMC3", thorough_only=True)],
    drivers=[dict(src="atomic.cpp", trace="AtomicTrace", script="at", shards=4, effort_thorough=15, asan=False, mem=True)],
    ops=["call", "ret", "final"],
    assumptions=["each access the compiler makes to the cell is a scheduling point; the memory model is sequentially consistent (the builtins are full barriers)", "up to 3 threads"])
PROPS["P29"] = dict(
    mc=[dict(module="TlsMC", cfg="TlsMC", gen="tl"), dict(module="TlsMC", cfg="TlsMC6", thorough_only=True)],
    drivers=[dict(src="tls.cpp", trace="TlsTrace", script="tl", shards=2, shards_thorough=6, effort_thorough=12, libs=["-ldl"])],
    ops=["new", "del", "set", "get", "exit", "keys"],
    assumptions=["operations of different threads follow each other (each is one call into the thread library)", "the thread library's own keys are as POSIX says (environment)"])
PROPS["P30"] = dict(
    mc=[dict(module="SocketMC", cfg="SocketMC", gen="sk"), dict(module="SocketOwnMC", cfg="SocketOwnMC"), dict(module="SocketMC", cfg="SocketMC8", thorough_only=True)],
    drivers=[dict(src="socket.cpp", trace="SocketTrace", script="sk", shards=4, effort_thorough=20, libs=["-ldl"]),
             dict(src="socket_mt.cpp", trace="SocketTrace", shards=1, effort_thorough=10, asan=False, mem=True, libs=["-ldl"])],
    ops=["bind", "connect", "accept", "write", "some", "read", "flow", "shut", "waitclose", "query", "close", "destroy", "move", "valid", "fds", "opt", "addr", "same", "race"],
    assumptions=["the network is simulated (environment): reliable ordered streams, short counts, interruptions, refusals, time-outs and failures scripted at system calls", "up to 5 sockets in one history"])
PROPS["P31"] = dict(
    mc=[dict(module="TimeMC", cfg="TimeMC", gen="tm"), dict(module="TimeMC", cfg="TimeMC3000", thorough_only=True)],
    drivers=[dict(src="timecv.cpp", trace="TimeTrace", script="tm", shards=4, effort_thorough=20)],
    ops=["str", "fmt", "parse", "ft", "add", "cmp", "now"],
    assumptions=["times from 1970 to 9999; texts denote years up to 3000", "C locale"])
PROPS["P32"] = dict(
    mc=[dict(module="RandomMC", cfg="RandomMC", gen="rn"), dict(module="RandomMC", cfg="RandomMC7", thorough_only=True)],
    drivers=[dict(src="random.cpp", trace="RandomTrace", script="rn", shards=4, effort_thorough=20, libs=["-ldl"])],
    ops=["seed", "copy", "get32", "get64", "call", "bytes", "frac", "range", "norm", "shuf", "shufall", "source", "sys", "nosrc", "huge"],
    assumptions=["little-endian host", "the quality of the system's random source is not checked, only that its bytes are delivered once and failure is reported", "[a, b) is checked for small integer bounds (for others the rounded product may equal b)"])
PROPS["P33"] = dict(
    mc=[dict(module="SparseMC", cfg="SparseMC", gen="sp"), dict(module="SparseMC", cfg="SparseMC5", thorough_only=True)],
    drivers=[dict(src="sparse.cpp", trace="SparseTrace", script="sp", shards=4, effort_thorough=20)],
    ops=["push", "map", "iter", "clear", "swap", "copy", "eq", "norm", "inner", "inter", "union", "load", "cut", "raw"],
    assumptions=["a vector is not read by several threads at once (the compressed table adds a sentinel on first iteration)", "values are numbers small enough for exact sums"])
PROPS["P34"] = dict(
    mc=[dict(module="TopScoreMC", cfg="TopScoreMC", gen="ts"), dict(module="TopScoreMC", cfg="TopScoreMC7", thorough_only=True)],
    drivers=[dict(src="topscore.cpp", trace="TopScoreTrace", script="ts", shards=4, effort_thorough=20)],
    ops=["add", "table", "size"],
    assumptions=["scores are ordered numbers (no NaN)"])
PROPS["P35"] = dict(
    mc=[dict(module="ArrMC", cfg="ArrMC", gen="ar"), dict(module="ArrMC", cfg="ArrMC4", thorough_only=True)],
    drivers=[dict(src="array.cpp", trace="ArrTrace", script="ar", shards=4, effort_thorough=20)],
    ops=["new", "resize", "huge", "set", "clear", "copy", "move", "swap", "look", "scoped", "freed"],
    assumptions=["element types are plain data", "an array is not moved onto itself"])
PROPS["P36"] = dict(
    mc=[dict(module="DiagMC", cfg="DiagMC", gen="dg"), dict(module="DiagMC", cfg="DiagMC4", thorough_only=True)],
    drivers=[dict(src="diag.cpp", trace="DiagTrace", script="dg", shards=4, effort_thorough=10, libs=["-ldl"]),
             dict(src="log_mt.cpp", trace="DiagTrace", shards=1, effort_thorough=10, asan=False, libs=["-ldl"])],
    ops=["format", "exc", "errno", "open", "set", "usesys", "pri", "ms", "put", "own", "threads"],
    assumptions=["texts without NUL bytes (messages are C strings)", "reconfiguring the logger is not done while other threads log (documented)", "the C library's conversions are taken as right; completeness and order of the result are checked", "system log and clock are stand-ins"])
PROPS["P37"] = dict(
    mc=[dict(module="RunnerMC", cfg="RunnerMC", gen="ru"), dict(module="RunnerMC", cfg="RunnerMC4", thorough_only=True)],
    drivers=[dict(src="runner.cpp", trace="RunnerTrace", script="ru", shards=4, effort_thorough=15)],
    ops=["run"],
    assumptions=["modules return or throw (they do not end the process)", "floating point values are compared as the library documents: bit by bit"])
PROPS["P38"] = dict(
    mc=[dict(module="ProcMC", cfg="ProcMC", gen="pr"), dict(module="ProcMC", cfg="ProcMC6", thorough_only=True)],
    drivers=[dict(src="process.cpp", trace="ProcTrace", script="pr", shards=4, effort_thorough=30, libs=["-ldl"], asan=False)],
    ops=["run", "ends", "alive", "alive0", "move", "valid", "left", "setenv", "unsetenv", "query", "get", "getdef"],
    assumptions=["at most one standard descriptor of the caller is closed", "a process object is assigned to only while it holds no child, as asserted", "the exit code is told to the first who asks after the end"])
PROPS["P39"] = dict(
    mc=[dict(module="RegexMC", cfg="RegexMC", gen="re"), dict(module="RegexMC", cfg="RegexMC5", thorough_only=True)],
    drivers=[dict(src="regex.cpp", trace="RegexTrace", script="re", shards=6, effort_thorough=30, libs=["-lboost_regex"])],
    ops=["re", "text", "match", "search", "iter", "tok", "repl"],
    assumptions=["repeated sub-expressions match no empty text; replacing and splitting use expressions that match no empty text", "no line breaks in texts", "groups inside repeated groups are not read"])
PROPS["P40"] = dict(
    mc=[dict(module="SslMC", cfg="SslMC", gen="tls"), dict(module="SslMC", cfg="SslMC11", thorough_only=True)],
    drivers=[dict(src="ssl.cpp", trace="SslTrace", script="tls", shards=2, effort_thorough=50, libs=["-lssl", "-lcrypto"])],
    ops=["new", "conn", "peer", "pend", "pbreak", "room", "some", "read", "write", "close", "free", "exit"],
    assumptions=["the TLS library keeps its documented contract (simulated by a stand-in)", "readSome is asked for at least one byte"])
PROPS["P41"] = dict(
    mc=[dict(module="V128MC", cfg="V128MC", gen="v128"), dict(module="V128MC", cfg="V128MCall", thorough_only=True)],
    drivers=[dict(src="v128.cpp", trace="V128Trace", script="v128", shards=4, effort_thorough=20, flags=["-msse4.2"])],
    ops=["v", "n", "w", "rot", "swap", "h32", "h64"],
    assumptions=["x86 with SSE4.1; aligned operations get aligned addresses", "a hash value of 0 cannot be continued (0 means the initial value)"])
PROPS["P42"] = dict(
    mc=[dict(module="TfIdfMC", cfg="TfIdfMC", gen="tfidf"), dict(module="TfIdfMC", cfg="TfIdfMC7", thorough_only=True)],
    drivers=[dict(src="tfidf.cpp", trace="TfIdfTrace", script="tfidf", shards=4, effort_thorough=20)],
    ops=["dapp", "dend", "dstat", "dterm", "dprint", "tkey", "tapp", "tend", "tterm"],
    assumptions=["keywords are listed in lower case (others never occur)", "a document without a keyword is not part of the keyword statistics", "logarithms of the C library"])
PROPS["P43"] = dict(
    mc=[dict(module="JsonValMC", cfg="JsonValMC", gen="json"), dict(module="JsonValMC", cfg="JsonValMC5", thorough_only=True)],
    drivers=[dict(src="json.cpp", trace="JsonValTrace", script="json", shards=4, effort_thorough=20)],
    ops=["set", "copy", "swap", "arr", "push", "obj", "put", "kid", "see", "is", "left"],
    assumptions=["accessors are called for values of their kind, as asserted", "the header has no parser or writer"])
PROPS["P44"] = dict(
    mc=[dict(module="QuitMC", cfg="QuitMC", gen="quit"), dict(module="QuitMC", cfg="QuitMC6", thorough_only=True)],
    drivers=[dict(src="quit.cpp", trace="QuitTrace", script="quit", shards=4, effort_thorough=20, asan=False, libs=["-lpthread"])],
    ops=["inst", "sig", "wait", "end"],
    assumptions=["signals are not blocked by the caller", "quit() itself is safe in a signal handler"])
PROPS["P45"] = dict(
    mc=[dict(module="IndepMC", cfg="IndepMC", gen="indep"), dict(module="IndepMC", cfg="IndepMC3", thorough_only=True)],
    drivers=[dict(src="indep.cpp", trace="IndepTrace", script="indep", shards=3, effort_thorough=12, libs=["-lcrypto", "-lz", "-lpthread"]),
             dict(src="indep.cpp", name="indep_builtin", flags=["-DCYBOZU_DONT_USE_OPENSSL"], trace="IndepTrace", script="indep", shards=3, effort_thorough=12, libs=["-lz", "-lpthread"]),
             dict(src="indep.cpp", name="indep_threads", flags=["-DTHREADS", "-DCYBOZU_DONT_USE_OPENSSL", "-fsanitize=thread"], asan=False, env={"TSAN_OPTIONS": "symbolize=0:ignore_noninstrumented_modules=1:halt_on_error=0:exitcode=0"}, trace="IndepTrace", shards=2, effort_thorough=20, libs=["-lz", "-lpthread"])],
    ops=["solo", "new", "step", "del", "thread", "races"],
    assumptions=["every object is used by one thread at a time", "the data an object reads or writes (stream, buffer, file) is its own too"])
PROPS["P46"] = dict(
    mc=[dict(module="MatrixMC", cfg="MatrixMC", gen="mat"), dict(module="MatrixMC", cfg="MatrixMC9", thorough_only=True)],
    drivers=[dict(src="matrix.cpp", trace="MatrixTrace", script="mat", shards=4, effort_thorough=15)],
    ops=["load", "save", "nofile", "unit", "compress", "ortho", "svd"],
    assumptions=["columns of a sparse line ascend when read into a sparse matrix", "small integer matrices; tolerances of some hundredths"])
# large instances: too large to log, compared element by element in the driver (event "big")
for p in "P01 P02 P03 P04 P05 P06 P09 P10 P14 P15 P16 P17 P18 P19 P21 P22 P24 P30 P33 P34 P35 P39 P40 P41 P43".split():
    PROPS[p]["ops"].append("big")
for p in ("P07", "P08"):
    PROPS[p]["ops"].append("initRuns")
