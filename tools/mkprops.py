#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=False):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["include/cybozu/" + f for f in files],
            state=[dict(name=n, meaning=m, where="include/cybozu/" + files[0]) for n, m in state],
            mechanism=[dict(name=m, where="include/cybozu/" + files[0]) for m in mechanism], observe_at=list(observe), hook_needed=None)))

prop("P01", "Serialization round-trips every supported value and consumes it exactly",
 "Any value of a supported type (integers of every width, bool, floating point, strings, vectors, lists and deques, ordered sets, ordered and unordered maps, nestings of them that compile, and user types that provide their own save/load) that is saved and loaded back is equal to the original, whatever the target held before the load. Loading consumes exactly the bytes that saving produced, so values saved one after another on one stream load back one after another, for every way the stream splits the data into short reads. Integers take the documented length-dependent little-endian encoding, and a stream that ends before the value does makes the load throw.",
 ["inputs", "histories"], "every value, nesting, previous target content, sequence of values and split of the stream; every truncation point",
 "serializer_test samples about ten values per type and never truncates, splits, or loads into a non-empty associative container",
 ["serializer.hpp", "stream.hpp"], ["integer length tag 0x80..; size prefix then elements; range loader clears and refills the target"],
 [("byte stream", "the bytes produced so far and the read position")], ["cybozu::save/load on a memory, std::string and short-reading stream"])

prop("P02", "Memory, string and std streams hand over exactly the bytes they hold",
 "Reading from a memory, string or standard stream adaptor returns the stored bytes in order, never more than remain, never a byte twice, and reports the end by returning zero; exact-length reads either deliver all the bytes asked for or report failure (exception or false flag). Writing appends exactly the given bytes in order, and a write that does not fit in a fixed memory buffer fails as a whole (exception or false flag), changes nothing and never touches memory outside the buffer. Reported positions and sizes always equal the bytes transferred so far.",
 ["histories", "inputs"], "every sequence of read and write calls with every size, including 0 and past the end",
 "stream_test performs one fixed sequence of calls per adaptor",
 ["stream.hpp"], ["clamp to remaining size; throw on short transfer"],
 [("buffer, position", "content and cursor of each adaptor")], ["return values, thrown exceptions, position getters, guard bytes round the buffer"])

prop("P03", "Line splitting does not depend on how the input arrives",
 "For a line limit of two bytes or more, reading lines from a stream yields the same lines whatever sizes the underlying reads return: the input split at LF with one CR before the LF removed, a last line without LF still delivered, and then end of input. A line longer than the configured limit throws instead of being returned truncated or split, and a line of exactly the limit is accepted.",
 ["inputs", "histories"], "every byte content, every sequence of short reads, every limit",
 "line_stream_test feeds a few strings with fixed read sizes",
 ["line_stream.hpp"], ["carry-over buffer between reads; limit check"],
 [("carry buffer", "bytes read but not yet returned")], ["nextLine results for scripted short reads"])

prop("P04", "CSV records survive writing and reading unchanged",
 "Any table of UTF-8 fields (including separators, quotes and LF inside fields, and empty fields) written with the CSV writer is read back by the CSV reader as the same records and fields, then end of file, for every valid separator and however the stream splits the text; only CR characters, which the reader is documented to ignore, are dropped. On any text the reader delivers the records of its grammar: quoted fields with doubled quotes, unquoted fields, LF record ends, a last record without line end delivered like the others (an unquoted empty field at the very end of a record is not reported), and it throws on a character other than separator, quote or line end after a closing quote and on an unterminated quoted field. A record is rejected exactly when its content reaches the size limit; the limit counts each record anew, not the whole file.",
 ["inputs", "histories"], "every table, every CSV text over the special characters",
 "csv_test checks two small files",
 ["csv.hpp"], ["per-character reader state machine; quote doubling in the writer"],
 [("reader state", "field buffer, in-quote flag, end of record")], ["read(vector) results on text produced by the writer or enumerated"])

prop("P05", "Base64 coding is the standard mapping and independent of chunking",
 "Encoding any byte string gives the RFC 4648 text with padding, broken into lines of the configured length with the configured line end, for every way the input stream splits into reads. Decoding the produced text, again for every split of the input, gives back the original bytes; characters outside the base64 alphabet (line ends, padding, blanks) are skipped when decoding. A line length that is not a multiple of 4 or exceeds 128 is rejected with an exception; a line length of 0 gives a single line without line end.",
 ["inputs", "histories"], "every byte string, line length, line end and chunking",
 "base64_test compares a dozen strings in one chunk",
 ["base64.hpp"], ["3-byte to 4-character groups; carry of partial groups across reads; line length counter"],
 [("group carry", "bytes of the current incomplete group")], ["EncodeToBase64/DecodeFromBase64 on scripted streams"])

prop("P06", "A bit vector behaves as a sequence of bits under every operation history",
 "After any sequence of set, get, append, resize, clear, copy, swap, extract and initialisation from raw words, a bit vector holds exactly the bits an ideal sequence of bits would hold: growth adds zeros, appending concatenates the given number of bits and nothing else, extraction returns exactly the requested bits with unused high bits zero. Two vectors compare equal exactly when they have the same length and the same bits. The bit-level copy and shift helpers compute the corresponding operation on the bit sequence and change no word beyond the range they are asked to write.",
 ["histories", "inputs"], "every operation history, bit length, alignment and word type",
 "bitvector_test compares some lengths and alignments from fresh vectors; histories that shrink and grow again are not tried",
 ["bitvector.hpp"], ["word array plus bit length; masking of the last partial word"],
 [("bits", "sequence of bits")], ["get/extract/size/== after every operation"])

prop("P07", "Rank and select answer as counting over the plain bit sequence would",
 "For every bit sequence, the succinct dictionaries answer rank(b, i) with the number of bits equal to b before position i, select(b, k) with the position of the k-th such bit or 'not found' when there are not that many, and get(i) with the bit itself; the reported size and counts are those of the sequence. Saving a dictionary and loading it gives a dictionary with the same answers.",
 ["inputs"], "every bit sequence of every length and density (all zero, all one, sparse, dense, around block boundaries) and every query",
 "sucvector_test/csucvector_test check random vectors of a few lengths",
 ["sucvector.hpp", "csucvector.hpp", "select8.hpp", "bit_operation.hpp"], ["block and sub-block counters; in-block popcount/select"],
 [("bits", "sequence of bits")], ["get/rank1/rank0/select1/select0/size"])

prop("P08", "The wavelet matrix answers as scanning the plain sequence would",
 "For every sequence of values and every supported value width (1 to 16 bits), the wavelet matrix returns get(i), rank(v, i) (occurrences of v before i), the count of smaller values before i, select(v, k) (position of the k-th v or 'not found'), size and per-value totals exactly as a scan of the sequence would, including values that do not occur. Saving it and loading it back gives the same answers.",
 ["inputs"], "every sequence, width and query",
 "wavelet_matrix_test checks two widths on a few vectors",
 ["wavelet_matrix.hpp", "sucvector.hpp"], ["per-bit stable partition with rank/select per level"],
 [("values", "sequence of values")], ["get/rank/rankLt/select/size"])

prop("P09", "Full-text index search finds exactly the occurrences in the text",
 "For every text and every non-empty pattern over the symbols a text may contain, the index reports a match exactly when the pattern occurs, the size of the match range is the number of occurrences, and converting the range to positions gives exactly the set of occurrence positions; the empty pattern is reported as not found. Extracting the text before a position, and the index loaded from a saved one or rebuilt for another text, behave likewise.",
 ["inputs", "histories"], "every text, pattern, sampling setting and save/load/re-initialise history",
 "fmindex_test searches a few patterns in two texts and builds each index once",
 ["fmindex.hpp", "wavelet_matrix.hpp", "frequency.hpp"], ["backward search over BWT; sampled suffix array"],
 [("text", "sequence of symbols")], ["getRange/convertPosition/getPrevChar"])

prop("P10", "Frequency tables rank symbols by how often they occurred",
 "After any sequence of additions a frequency table reports for each symbol exactly the number of times it was added, the rank order is by decreasing frequency, and rank and symbol lookups are inverse of each other. Saving the table and loading it (into an empty or a used table) and copying it preserve all answers.",
 ["inputs", "histories"], "every multiset of symbols, of small integer and general types",
 "frequency_test uses two fixed inputs",
 ["frequency.hpp", "serializer.hpp"], ["count table then sort by frequency"],
 [("counts", "symbol to count")], ["getFrequency/getIndex/getElem/size"])

prop("P11", "Text to integer conversion accepts exactly the representable numbers",
 "Decimal, and hexadecimal, conversion to every integer width returns the mathematical value when the given text is a well-formed number representable in the target type, and otherwise reports failure (false flag or exception), never a wrapped, truncated or saturated value. This holds for any text length, also when the number is not terminated by a NUL, and no character outside the given text is read.",
 ["inputs"], "every text over digits, signs and other characters, of every length, for every target width",
 "atoi_test has tables of around a hundred texts",
 ["atoi.hpp"], ["overflow thresholds per type; explicit length handling"],
 [], ["returned value and success flag or exception"])

prop("P12", "Integer to text conversion prints the exact value and round-trips",
 "For every integer of every width the decimal, hexadecimal (upper and lower case, with or without leading zeros) and binary texts are the exact digits of the value with no superfluous characters, zero-padded forms have exactly the requested width or more, and a buffer that is too small is reported and never overrun. Parsing the produced text with the text to integer conversions gives the value back.",
 ["inputs"], "every value of every integer type, every requested width and buffer size",
 "itoa_test samples a few dozen values",
 ["itoa.hpp", "atoi.hpp"], ["digit loops filling a buffer from the end"],
 [], ["produced text, reported length, guard bytes"])

prop("P13", "Endian access and bit primitives compute the documented function",
 "Storing a 16, 32 or 64 bit value with a given byte order and loading it with the same order returns the value, with the bytes laid out in that order at any alignment and no other byte touched; byte swapping reverses the bytes. Scan-forward, scan-reverse, population count and low-bit mask primitives return the mathematically defined result for every input they are defined on.",
 ["inputs"], "every value and alignment",
 "endian_test and bit_operation_test sample tens of values",
 ["endian.hpp", "bit_operation.hpp"], ["compiler builtins or shifts, per width"],
 [], ["returned values and memory bytes"])

prop("P14", "Configuration files parse by the documented grammar and round-trip",
 "A configuration text is accepted exactly when each line is blank, a comment, a section header or a name=value entry with well-formed names, and no name is given twice in a section; after that each section holds exactly the entries given for it with their exact values. Otherwise parsing throws. Printing a configuration and parsing it again gives the same sections and entries, and typed access returns the value of the entry or throws for a missing name or malformed value.",
 ["inputs", "histories"], "every text over the grammar's characters, every set of entries",
 "config_test parses a few files",
 ["config.hpp", "line_stream.hpp"], ["line classifier; section map"],
 [("sections", "section to name to value")], ["load, get, toString"])

prop("P15", "The command line parser assigns every argument or rejects the line",
 "For every declared set of options (flag, optional, required, single, fixed or variable count, positional) and every argument list, parsing succeeds exactly when each argument can be assigned by the declared rules, every mandatory option and positional is present and every integer or text value converts to its type; then each variable holds its argument (the last one given; list options and trailing positionals collect all of theirs in order), or its default if it was not given. Otherwise parsing fails and reports the problem; numeric values with suffixes are scaled exactly or rejected on overflow. Printing lists each variable's current value and whether it was set; the usage text lists every option, marking mandatory ones, and the help option prints it and ends the program successfully.",
 ["inputs", "configurations"], "every option declaration and every argument list",
 "option_test has about twenty hand-written lines",
 ["option.hpp", "atoi.hpp"], ["left-to-right parse with per-option state; verification of mandatory ones at the end"],
 [("option table", "declared options, which are set"), ("remaining positionals", "expected and received")], ["parse result, variables, isSet"])

prop("P16", "XML escaping is invertible and the parsed tree mirrors the document",
 "For every text, escaping yields a text without markup characters and unescaping it gives the original back. For every well-formed document of the supported subset (header, elements, attributes, self-closing elements and at most one run of text per element), the parsed tree has exactly the elements, nesting, order, attributes and text (without leading white space) of the document; mismatched or unclosed tags and malformed attributes are rejected with an exception.",
 ["inputs"], "every document generated from the supported grammar and every single mutation of one",
 "minixml_test parses one document",
 ["minixml.hpp"], ["recursive tag parser; entity table"],
 [("tree", "element, attributes, children")], ["parsed nodes and exceptions"])

prop("P17", "UTF-8 and UTF-16 conversion accepts exactly valid text and is lossless",
 "Decoding UTF-8 succeeds exactly for well-formed byte sequences (shortest form, no surrogates, at most U+10FFFF) and yields their code points; encoding code points gives those bytes back and fails for surrogates and out-of-range values. Conversions between UTF-8, UTF-16 and code points are mutually inverse on valid text and report failure on invalid text, without reading past the end of the input.",
 ["inputs"], "every code point, every byte sequence, every 16-bit sequence",
 "string_test checks the boundary code points and a few malformed strings",
 ["string.hpp"], ["lead byte classification; surrogate arithmetic"],
 [], ["GetCharFromUtf8, AppendUtf8, ConvertUtf8ToUtf16, ConvertUtf16ToUtf8, String::toUtf8"])

prop("P18", "The Unicode string behaves as a sequence of code points",
 "After any history of assign, append, insert, erase, replace, resize, swap, copy, move and concatenation, including operations whose argument is the string itself, a Unicode string holds exactly the code points an ideal sequence would hold. Searches, comparisons and substrings give the results of the same operations on that sequence, and operations with an offset past the end throw and leave the string unchanged.",
 ["histories", "inputs"], "every operation history with every offset and count, aliasing included",
 "string_test exercises each method once or twice from fresh strings and without aliasing",
 ["string.hpp"], ["wrapper round a standard string of code points"],
 [("content", "sequence of code points")], ["content after each operation, return values, exceptions"])

prop("P19", "Trim, split, case folding and search keep to their definition on every text",
 "Trimming removes exactly the leading and trailing white space and nothing else; splitting returns pieces that joined with the separator give the text back, at most the requested number of them, the last one holding the rest. Case conversion changes exactly the ASCII letters, case-insensitive comparison, equality, prefix test and search agree with comparing the lower-cased texts, and stripping removes exactly the trailing line ends.",
 ["inputs"], "every text, separator, limit and character type",
 "string_operation_test has a few cases for each function",
 ["string_operation.hpp"], ["iterator scans"],
 [], ["returned strings, counts, positions"])

prop("P20", "Digests, HMAC and ciphers are standard and independent of chunking",
 "For every message and every way of splitting it over update calls, the SHA-1, SHA-224, SHA-256, SHA-384, SHA-512 and HMAC implementations (both the built-in and the library-backed ones) return the value the standard defines, and a hash object that is reset or has produced its digest as documented starts afresh. The bundled keyed hash and the AES wrapper likewise give the standard result for every input, and decrypting what was encrypted with the same key and vector returns the plain text.",
 ["inputs", "histories"], "every message length round block boundaries, every chunking, every reuse history",
 "sha1/sha2/crypto/siphash tests check published vectors in one or two chunkings",
 ["sha1.hpp", "sha2.hpp", "crypto.hpp", "siphash.hpp"], ["partial block buffer; length padding"],
 [("partial block", "bytes not yet hashed"), ("total length", "bytes hashed")], ["digest values"])

prop("P21", "Compressed streams decompress to the written bytes for every chunking",
 "Whatever sequence of writes goes into a compressor, in deflate or gzip form, and whatever sizes the reads and the underlying stream use, decompressing the finished output gives exactly the written bytes followed by the end of the data. Output is complete once the compressor is finished, and decompressing a truncated or corrupted stream throws: the end of the data is never reported after anything but the written bytes.",
 ["inputs", "histories", "fault_sequences"], "every content, chunking on both sides, buffer size and truncation or corruption point",
 "zlib_test uses one text and one chunk size per test and no corrupted input",
 ["zlib.hpp"], ["deflate/inflate loop with fixed-size internal buffer; gzip header"],
 [("pending input/output", "bytes not yet compressed or delivered")], ["bytes returned by readSome/read, exceptions"])

prop("P22", "File operations transfer exact bytes, and memory maps show the file's bytes",
 "After any history of open (read, write, truncate, append, with their documented modes), read, write, seek, sync and close, the file holds exactly what an ideal byte array with a position would hold, even when the operating system transfers fewer bytes than asked or interrupts a call. An exact read delivers all the bytes asked for or throws when the file ends first; failures to open, read or write are reported, never silently lost. A memory map shows exactly the file's bytes and size.",
 ["histories", "fault_sequences"], "every operation history, every pattern of short and interrupted transfers",
 "file_test runs a fixed script on a disk that never returns short counts",
 ["file.hpp", "mmap.hpp"], ["retry loops on short transfer and EINTR; mode flags"],
 [("file content", "byte array"), ("position", "offset of next transfer")], ["return values, exceptions, file content read by other means"])

prop("P23", "File name helpers split and test paths consistently",
 "For every name, the suffix test holds exactly when the name ends with a dot and that suffix (always for the empty suffix); splitting cuts at the last dot, so that joining the two parts with a dot restores the name, and gives the whole name and no suffix when there is no dot; separator conversion replaces every backslash and nothing else; the program's path splits into its directory and its name without .exe. Directory listing returns each entry that passes the suffix filter exactly once with its right kind, and reports a missing directory.",
 ["inputs"], "every path over separators, dots and letters; every directory content",
 "file_test has a handful of paths",
 ["file.hpp"], ["string scans from the end; readdir loop"],
 [], ["returned strings and lists"])

prop("P24", "A parallel loop runs every index exactly once and reports failures",
 "For every number of items, number of threads and schedule, a parallel loop calls the body exactly once for each index when the body neither fails nor asks to stop, passes a thread number below the number of threads such that no two calls with the same thread number run at the same time, and returns only after all calls have finished. If the body throws in any thread, the loop still waits for all threads and then throws to the caller; if the body asks to stop, only indices not yet started by that thread are skipped.",
 ["schedules", "inputs"], "every item count, thread count, schedule and failing index",
 "parallel_test sums a vector with the schedule that happens to occur",
 ["parallel.hpp", "thread.hpp"], ["contiguous partition; join of all threads; error string per thread"],
 [("indices done", "which calls have started/finished")], ["calls logged by the body, return or exception"])

prop("P25", "A thread object runs its body once and joins or detaches exactly once",
 "For every interleaving of start, join, detach and destruction, the thread body runs exactly once per successful start and not at all after a failed one, on a stack of the requested size, the operation that gets hold of the thread (join, detach or destruction, exactly one of them) releases it exactly once, a join or destruction that got it returns only after the body has finished, and a detach reports whether it got it. Sleeping lasts the requested time even when it is interrupted.",
 ["schedules", "histories"], "every schedule and call history, also concurrent joins",
 "thread_test joins each thread once",
 ["thread.hpp", "atomic.hpp"], ["atomic exchange of the handle before join/detach"],
 [("handle", "thread not started / running / released")], ["pthread calls made, body effects, return values"])

prop("P26", "An auto-reset event never loses or duplicates a wakeup",
 "For every interleaving of waits and wakeups, a wakeup given while nobody waits is remembered until one wait consumes it, further wakeups before that add nothing, and each wait that returns has consumed one wakeup given since the previous consumed one. A waiting thread cannot stay blocked while the event is signalled, and spurious operating-system wakeups do not make a wait return.",
 ["schedules"], "every interleaving of any number of waiters and wakers, with spurious wakeups",
 "event_test plays ping-pong between two threads under one schedule",
 ["event.hpp"], ["flag protected by mutex, condition variable wait loop"],
 [("signalled", "flag"), ("waiters", "threads inside wait")], ["calls and returns of wait/wakeup"])

prop("P27", "Locks exclude, and condition waits release and reacquire them",
 "For every schedule at most one thread is between lock and unlock of a mutex or critical section, a thread that wants the lock gets it once it is free, and scoped locks release it on every exit path including exceptions. A condition wait releases the lock while waiting and holds it again when it returns; a notification of one wakes one of the threads then waiting if there is any, and a notification of all wakes every one of them.",
 ["schedules"], "every interleaving of lock, unlock, wait, signal and broadcast",
 "mutex/condition_variable tests run a producer and consumer under one schedule",
 ["mutex.hpp", "critical_section.hpp", "condition_variable.hpp", "condition_variable_cs.hpp"], ["pthread wrappers; RAII guard"],
 [("owner", "thread holding the lock"), ("wait set", "threads in condition wait")], ["calls and returns"])

prop("P28", "Atomic operations are indivisible and return the previous value",
 "For every schedule of concurrent add, exchange and compare-exchange on one location of 4 or 8 bytes, the results are those of some one-after-another order of the operations that respects real time; each returns the value just before it, and compare-exchange stores exactly when that value equals the expected one. No neighbouring memory is changed.",
 ["schedules", "inputs"], "every interleaving, operand and width",
 "atomic_test counts from several threads under one schedule with increments only",
 ["atomic.hpp"], ["compiler atomic builtins selected by size"],
 [("cell", "value of the location")], ["return values and final content"])

prop("P29", "Thread-local slots are private to each thread and to each slot",
 "For every schedule, a value stored in a thread-local slot is seen by the storing thread only, a thread that stored nothing sees null, slots are independent of each other, and a new slot starts empty for every thread whatever earlier slots held. When no slot can be had, storing reports failure and reading gives null. Destroying a slot releases it.",
 ["schedules", "histories"], "every schedule of threads reading and writing slots, any number of slots",
 "tls_test uses one slot and two threads",
 ["tls.hpp"], ["pthread key wrappers"],
 [("slot", "thread to value")], ["get/put results, destructor calls"])

prop("P30", "Sockets carry an exact byte stream and own their descriptor exactly once",
 "What one end of a connection writes, the other end reads in order without loss, duplication or insertion, whatever partial transfers or interruptions the operating system inflicts; an exact read delivers every byte or throws when the peer closes first, and reports of bytes read or written are exact. Each descriptor is closed exactly once over every history of connect, accept, move, close and destruction, a failed connect or bind leaves the socket without a descriptor, and failures (refused, timed out, closed) are reported, never taken for success. Options and addresses given are the ones the system gets and the ones read back.",
 ["histories", "fault_sequences", "schedules"], "every transfer size, short-count pattern, interruption and ownership history",
 "socket_test sends a few fixed messages over loopback, where transfers are complete",
 ["socket.hpp"], ["retry loops round send/recv; descriptor exchange on close and move"],
 [("stream", "bytes in flight"), ("descriptor", "open/closed, owner")], ["bytes received, system calls, exceptions"])

prop("P31", "Times convert to text and back without change",
 "For every point in time the formatted text denotes exactly that time (calendar date, time of day and milliseconds, in UTC) and parsing a text in any accepted form (years up to 3000) gives the time it denotes; texts that do not denote a valid time in an accepted form are rejected with an exception and without reading past their end. Comparison and arithmetic order times by seconds and then milliseconds.",
 ["inputs"], "every time from year 1970 to 9999 and every text near the accepted forms",
 "time_test converts a handful of times",
 ["time.hpp"], ["fixed-column parser; gmtime/timegm"],
 [], ["toString, fromString, comparison"])

prop("P32", "Pseudo-random generators are reproducible and shuffles are permutations",
 "A generator seeded with the same seed always yields the same documented sequence, whether drawn as 32 bit, 64 bit or bytes, and restarting or copying its state reproduces the rest. Shuffling rearranges the elements without loss or duplication for every generator output, every arrangement being equally likely when the generator's outputs are; uniform draws stay within the requested range and approximately normal ones have the requested mean and deviation whatever the seed. The system's random source hands out each byte it reads at most once, within the buffer asked for, and an unavailable or exhausted source is reported, never filled in.",
 ["inputs", "histories"], "every seed, draw history and array length",
 "xorshift/random tests draw a few numbers and check averages",
 ["xorshift.hpp", "pcg.hpp", "random_generator.hpp", "nlp/random.hpp"], ["fixed recurrences; Fisher-Yates"],
 [("generator state", "words of state")], ["drawn numbers, shuffled array"])

prop("P33", "Sparse vectors are ordered position-value maps",
 "After any history of appends, a sparse vector (plain or compressed) iterates exactly the appended position-value pairs in increasing position order, rejects positions that are not increasing or too large, and survives save and load. Intersection visits exactly the positions in both vectors, union exactly those in either with zero for the missing side, and inner product and norm equal the sums over them.",
 ["inputs", "histories"], "every increasing position sequence, gap size and pair of vectors",
 "nlp sparse tests use a few vectors with small gaps",
 ["nlp/sparse.hpp"], ["difference coding of positions; merge iteration"],
 [("entries", "position to value")], ["iteration, set operations, inner product"])

prop("P34", "The top-score table keeps the best entries in order",
 "After any sequence of additions the table holds the entries with the highest scores, at most the configured number of them, in decreasing order of score, equal scores in order of arrival. This holds for every capacity, also after the table was looked at or resized.",
 ["histories"], "every sequence of scores (ties included), every capacity, interleaved with reads",
 "top_score_test adds one fixed sequence",
 ["nlp/top_score.hpp"], ["insertion into a sorted bounded array"],
 [("table", "sorted entries")], ["getTable"])

prop("P35", "Aligned arrays hold their elements aligned across every resize and copy",
 "After any history of construction, resize, clear, copy, move and swap an aligned array has the requested size, its storage is aligned as declared, elements that survive an operation keep their values, and elements added by a clearing resize are zero. Copies are independent of the original and moving leaves the source empty.",
 ["histories"], "every operation history, element size and alignment",
 "array_test has four fixed scripts",
 ["array.hpp"], ["capacity kept on shrink; allocate and copy on growth"],
 [("elements", "sequence"), ("capacity", "allocated elements")], ["size, content, address"])

prop("P36", "Diagnostics are complete: formatting, exceptions, error codes and logs",
 "Formatting returns the complete text for every length of result; an exception's message holds every item attached to it in order; a saved system error code reports the code it was made for. A log message is written exactly once, as one line with its time stamp and complete text, to the configured destination exactly when its priority is at least the configured one.",
 ["inputs", "histories"], "every message length and content, every sequence of configuration changes and log calls",
 "format/log/exception tests use a few short messages",
 ["format.hpp", "exception.hpp", "log.hpp"], ["grow-and-retry formatting buffer; priority filter; destination switch"],
 [("destination", "file or stream"), ("priority", "threshold")], ["returned strings and the file content"])

prop("P37", "The unit test runner's verdict reflects every assertion",
 "A test program reports the exact number of modules, successful and failed assertions and escaped exceptions, runs every registered module exactly once even when others fail or throw, and exits with zero exactly when nothing failed and nothing was thrown.",
 ["programs", "histories"], "every sequence of modules with passing, failing and throwing assertions",
 "the framework is only ever exercised by tests that pass",
 ["test.hpp"], ["ok/ng/exception counters; per-module catch"],
 [("counters", "ok, ng, exceptions")], ["summary line and exit status"])

prop("P38", "A child process is the requested program and its fate is reported",
 "Starting a child succeeds exactly when the program could be executed (whatever signal interrupts the caller), and the program then sees exactly the given arguments in order after its own name, the caller's environment, no descriptor of the caller beyond the standard ones, and the null device as standard streams when asked for, the caller's otherwise. A failed start leaves no child behind and nothing of the caller's buffers or exit handlers is executed twice. The object holding the child reports it alive until it ends and then its exit code (-1 if a signal ended it); copying hands the child over so that one object at a time holds it. Environment queries return the variable's current value, or report that there is none.",
 ["histories", "environment faults"], "every history of starting, failing, copying, ending and asking, every argument list and set of open descriptors",
 "the repository has no test of it; it depends on what is open, closed and interrupted at the time",
 ["process.hpp", "env.hpp"], ["process::Start fork/execv with status pipe", "Process::move"],
 [("handle", "pid held by one object"), ("status pipe", "closed by a successful execv")], ["argv, descriptors and streams seen by the child", "isAlive and exit code"])

prop("P39", "Regular expressions match, split and replace text by code points",
 "For every expression (characters, classes, alternation, greedy and lazy repetition, groups, anchors, ignoring case or not), however its pattern is given, and every text of Unicode code points: a full match succeeds exactly when the expression describes the whole text; searching finds the leftmost match, preferring alternatives from left to right and longer (lazy: shorter) repetitions; position, text before and behind and every group are those of that match. Iterating yields all matches from left to right without overlap, splitting yields the requested groups or the texts between matches, and replacing puts the formatted text in place of all (or only the first) matches and keeps or drops the rest; matching flags are honoured everywhere.",
 ["inputs"], "every expression, text and combination of flags",
 "regex_test matches a dozen fixed strings",
 ["regex.hpp", "string.hpp"], ["wrapper over boost::basic_regex<Char>; iterators over cybozu::String"],
 [("expression", "compiled pattern and flags"), ("match", "positions of the whole and of each group")], ["match results, iterators, replaced text"])

prop("P40", "A TLS client connection transfers exact bytes and reports every failure",
 "Connecting succeeds exactly when the TCP connection and the handshake do, for a fresh socket as well as one closed or refused before; a failed attempt leaves no descriptor open. Reading delivers exactly the peer's bytes in order, all that were asked for or an error when the stream ends or breaks first (a broken connection is never taken for its end); writing delivers exactly the given bytes or reports an error, whatever retries and partial transfers occur in between. Closing notifies the peer and always releases the descriptor, reporting only real failures and none when asked not to throw; a program that used TLS ends normally.",
 ["histories", "environment faults"], "every history of connecting, transferring and closing with every answer of network and library",
 "the repository has no test of it; it depends on retries, partial transfers and failures of the other side",
 ["ssl.hpp", "socket.hpp"], ["ClientSocket over SSL_*; retry on WANT_READ/WANT_WRITE", "Engine/Ctx lifetime"],
 [("connection", "socket and SSL object, connected or not"), ("stream", "bytes sent and not yet read, end, break")], ["bytes and errors", "open descriptors", "exit of the program"])

prop("P41", "128-bit word operations and hash values are exact for every operand",
 "Every operation on 128-bit words (loads and stores, shifts and rotations by bits and bytes, unpacking, shuffling, inserting and extracting, lane arithmetic, comparisons, minimum and maximum, logic, tests) yields exactly the bits of its mathematical definition, for every operand and amount. The 32- and 64-bit hash of a sequence depends only on its elements and the initial value, not on the container or the way it is passed: it is the FNV-1a value (64 bit: with the halves folded); a 32-bit hash continued from the hash of a first part equals the hash of the whole; a string's hash is that of its characters.",
 ["inputs"], "every pair of words, every amount, every sequence and initial value",
 "the repository has no test of either",
 ["v128.hpp", "hash.hpp", "string.hpp"], ["V128 wrappers of SSE operations", "hash32/hash64 loops"],
 [("word", "128 bits")], ["result words and numbers"])

prop("P42", "Word statistics over documents count every word and document exactly",
 "For every sequence of words and document ends: the document-frequency table numbers the distinct words, compared without regard to ASCII case, in order of first appearance, and counts for each the documents that contain it, once per document however often and in whatever spelling it occurs; the selection keeps the words that occur in more than the lower limit of documents, and of these the given share with the lowest frequencies, in rising order; printing gives each word's frequency and log(documents/frequency). The keyword statistics read the keywords (the part of each line before the tab) in order, each once, count for every document that contains a keyword how often each keyword occurs, and give for every such document, and only for those, the vector of occurrences times log(documents/documents with the keyword), by keyword number.",
 ["inputs", "histories"], "every sequence of words and document ends, every keyword file, limit and share",
 "the repository has no test of it; spelling variants and the relation of document to keyword numbers need many histories",
 ["nlp/tfidf.hpp"], ["Df::append/term and operator<<", "TfIdf::loadKeywordFile/append/endDoc/term"],
 [("words", "numbers and document counts"), ("documents", "keyword counts")], ["tables, vectors, printed lines"])

prop("P43", "Every JSON value is a tree of its own, equal to what was last put into it",
 "After every history of building values (nothing, texts, numbers, truth values, arrays, objects), copying, assigning (to itself, and a part of a value to the whole), exchanging and extending them, each variable holds exactly the tree that its own history describes: copies are equal and independent at every depth, exactly one of the questions for the kind says yes, the accessors return what was put in (texts byte by byte), object members are in order of their names, each name once. When the values are gone, no memory is left, and none is used after being freed.",
 ["inputs", "histories"], "every tree and every history of operations on several values",
 "the repository has no test of it; sharing between copies shows only after particular histories",
 ["json.hpp"], ["tagged union with owned pointers; copy and swap"],
 [("variables", "trees")], ["accessor results", "memory left"])

prop("P44", "Every request to quit reaches the application, once, and kills nothing",
 "After a quit handler was installed for an application, each of the signals INT, QUIT, ABRT and TERM, at any moment and however often, calls quit() of the application named last (whatever its class), exactly once per delivered signal; the process goes on. A signal that comes while a quit() call is in progress, the same or another one, is neither lost nor handled inside that call: it is told after it, once for each different signal. A blocking system call in progress is interrupted, so that the application can react.",
 ["schedules", "histories"], "every sequence and nesting of signals and installations",
 "the repository has no test of it; needs signals inside handlers",
 ["quit_signal_handler.hpp"], ["sigaction with a full mask and without restart"],
 [("application", "named last"), ("signals", "waiting")], ["calls of quit()", "end of the process"])

prop("P45", "Objects are independent of one another, in any order of use and any thread",
 "What an object of the library does depends on its own construction, the calls made on it and the data given to it alone. Other objects of the same or another class made, used and ended before, between or after its steps change nothing: results, output, errors and the memory it reads are the same as if it were alone, and doing the same again later gives the same again. The same holds for the free functions (conversion, formatting, hashing, encoding). Different objects, and the free functions, may be used by different threads at the same time without any lock: no data race, same results.",
 ["schedules", "histories"], "every interleaving of the steps of several objects, in one thread or several, for every class",
 "tests use one object at a time in one thread; shared scratch memory or cached state only shows when uses interleave",
 ["sha1.hpp", "sha2.hpp", "zlib.hpp", "csv.hpp", "line_stream.hpp", "base64.hpp", "xorshift.hpp", "exception.hpp", "itoa.hpp", "config.hpp", "option.hpp", "minixml.hpp", "serializer.hpp", "frequency.hpp", "fmindex.hpp", "wavelet_matrix.hpp", "time.hpp", "file.hpp", "nlp/sparse.hpp"],
 ["all state in members and automatic variables"],
 [("objects", "each its own state"), ("threads", "each its own objects")], ["results and output of each object", "data races"])

prop("P46", "Matrix and vector files round-trip; the SVD's factors satisfy A V = U S",
 "A matrix or vector saved as text (dense, or sparse as column:value per row, numbers with eight significant digits) is written with the documented header and one line per row, and loads back as the same shape and numbers; a sparse file also loads as a dense matrix, absent entries being 0 whatever the target held before. Loading returns false for a file that cannot be opened, a header that is not '# (M|V) (D|S) <row> <col>' with positive sizes (a vector has only <row>), the wrong kind for the call, too few numbers or rows, and a sparse entry with a wrong separator or a column outside the matrix; it never touches memory outside the matrix. Saving returns false when it could not write. Orthonormalisation gives unit columns at right angles (or zero columns) which span, column by column, what the columns given span. CompressCol adds consecutive columns up in r nearly equal groups, each column once; InitUnitMatrix deals rows to columns likewise. ComputeSVD with r = min(rank, rows, columns) returns false for r <= 0; otherwise U and V have r columns, S is non-negative and descending, columns belonging to non-zero singular values are orthonormal, A V = U S, and U S V' = A when r is the number of rows.",
 ["inputs"], "every matrix, shape, rank and file text",
 "tests save one matrix and decompose three full-rank ones; shapes, broken files, dependent columns and ranks are unbounded",
 ["nlp/svd.hpp"],
 ["LoadHeader, LoadMatrix, LoadSparseMatrix, LoadVector, Save*", "OrthonormalizeMatrix", "CompressCol, InitUnitMatrix", "ComputeSVD"],
 [("matrix", "rows of numbers"), ("file", "header words and lines of entries")], ["returned matrices and vectors", "returned flags", "written files"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
