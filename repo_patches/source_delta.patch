From b8e55bec09ce4c7da0d08f7e7a3832d2be45a39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:17 +0000
Subject: [PATCH 01/67] fix: BitVectorT::init keeps bits above bitLen, exposed
 by a later append or resize

---
 include/cybozu/bitvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index d53e9fd..63ee6f2 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -200,7 +200,7 @@ public:
 	void init(const T *buf, size_t bitLen)
 	{
 		resize(bitLen);
-		std::copy(buf, buf + v_.size(), &v_[0]);
+		CopyBit<T>(v_.data(), buf, bitLen);
 	}
 	void resize(size_t bitLen)
 	{
-- 
2.43.0


From aa723a93922ac310fb729353e7b1a559fe167088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:17 +0000
Subject: [PATCH 02/67] fix: BitVectorT::append(self) reads freed memory

---
 include/cybozu/bitvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index 63ee6f2..8260ed4 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -294,6 +294,7 @@ public:
 	*/
 	void append(const BitVectorT<T>& v)
 	{
+		if (&v == this) reserve(size() * 2); // keep the source valid while growing
 		append(v.getBlock(), v.size());
 	}
 	/*
-- 
2.43.0


From e0382f09b4d2131799517000f66a1048080b9343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:17 +0000
Subject: [PATCH 03/67] fix: BitVectorT::append(src, bitLen) leaks bits above
 bitLen when bitLen is the word size

---
 include/cybozu/bitvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index 8260ed4..14b920c 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -274,8 +274,8 @@ public:
 		if (bitLen > unitBitSize) {
 			throw cybozu::Exception("BitVectorT:append:bad bitLen") << bitLen;
 		}
-		if (bitLen < unitBitSize) {
-			src &= GetMaskBit<T>(bitLen);
+		if (bitLen < 64) {
+			src &= GetMaskBit<uint64_t>(bitLen);
 		}
 		const size_t q = bitLen_ / unitBitSize;
 		const size_t r = bitLen_ % unitBitSize;
-- 
2.43.0


From f03f247fadb830742876a3d03c54cb6e256044a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:17 +0000
Subject: [PATCH 04/67] fix: BitVectorT::extract accepts a position whose end
 wraps around

---
 include/cybozu/bitvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index 14b920c..12b4fac 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -303,7 +303,7 @@ public:
 	void extract(T* dst, size_t pos, size_t bitLen) const
 	{
 		if (bitLen == 0) return;
-		if (pos + bitLen > bitLen_) {
+		if (pos > bitLen_ || bitLen > bitLen_ - pos) {
 			throw cybozu::Exception("BitVectorT:extract:bad range") << bitLen << pos << bitLen_;
 		}
 		const size_t q = pos / unitBitSize;
@@ -328,7 +328,7 @@ public:
 	T extract(size_t pos, size_t bitLen) const
 	{
 		if (bitLen == 0) return 0;
-		if (bitLen > unitBitSize || pos + bitLen > bitLen_) {
+		if (bitLen > unitBitSize || pos > bitLen_ || bitLen > bitLen_ - pos) {
 			throw cybozu::Exception("BitVectorT:extract:bad range") << bitLen << pos << bitLen_;
 		}
 		const size_t q = pos / unitBitSize;
-- 
2.43.0


From 1181e92d73ff6d8bcc9bc141527555ffaa568916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:17 +0000
Subject: [PATCH 05/67] fix: BitVectorT::operator== ignores the length

---
 include/cybozu/bitvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index 12b4fac..a6db2a2 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -346,8 +346,8 @@ public:
 		}
 		return v;
 	}
-	bool operator==(const BitVectorT<T>& rhs) const { return v_ == rhs.v_; }
-	bool operator!=(const BitVectorT<T>& rhs) const { return v_ != rhs.v_; }
+	bool operator==(const BitVectorT<T>& rhs) const { return bitLen_ == rhs.bitLen_ && v_ == rhs.v_; }
+	bool operator!=(const BitVectorT<T>& rhs) const { return !operator==(rhs); }
 };
 
 #if (CYBOZU_OS_BIT == 32)
-- 
2.43.0


From b7ca20ff56a27e85f15855c118a0e3287fedb2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:10 +0000
Subject: [PATCH 06/67] fix: load of set, map and unordered_map keeps the old
 elements of the target

---
 include/cybozu/serializer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cybozu/serializer.hpp b/include/cybozu/serializer.hpp
index 8deb19a..aa223c6 100644
--- a/include/cybozu/serializer.hpp
+++ b/include/cybozu/serializer.hpp
@@ -294,6 +294,7 @@ void load(Container<K, Pred, Alloc>& x, InputStream& is, typename stream_local::
 {
 	size_t size;
 	load(size, is);
+	x.clear();
 	for (size_t i = 0; i < size; i++) {
 		K t;
 		load(t, is);
@@ -318,6 +319,7 @@ void load(Container<K, V, Pred, Alloc>& x, InputStream& is, typename stream_loca
 	typedef Container<K, V, Pred, Alloc> Map;
 	size_t size;
 	load(size, is);
+	x.clear();
 	for (size_t i = 0; i < size; i++) {
 		std::pair<typename Map::key_type, typename Map::mapped_type> vt;
 		load(vt.first, is);
@@ -344,6 +346,7 @@ void load(Container<K, V, Hash, Pred, Alloc>& x, InputStream& is, typename strea
 	typedef Container<K, V, Hash, Pred, Alloc> Map;
 	size_t size;
 	load(size, is);
+	x.clear();
 //	x.reserve(size); // tr1::unordered_map may not have reserve
 	cybozu::serializer_local::reserve_if_exists(x, size);
 	for (size_t i = 0; i < size; i++) {
-- 
2.43.0


From 8cb822e7d68715679a8c382a5d8605a74701bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:20 +0000
Subject: [PATCH 07/67] fix: CsvReaderT loses the last record without line end
 when its last field is empty, and an unterminated empty quoted field

---
 include/cybozu/csv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/csv.hpp b/include/cybozu/csv.hpp
index f397105..9e832a5 100644
--- a/include/cybozu/csv.hpp
+++ b/include/cybozu/csv.hpp
@@ -75,7 +75,7 @@ public:
 		std::string str;
 		for (;;) {
 			int c = my_getchar();
-			if (c == EOF && str.empty()) return false;
+			if (c == EOF && state == Top && out.empty()) return false;
 			if (c == CR) continue;
 			switch (state) {
 			case Top:
-- 
2.43.0


From 6f2f42c3f302cace4a2fedc0dbf417f2dccbefd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:20 +0000
Subject: [PATCH 08/67] fix: CsvReaderT counts its line size limit over the
 whole file

---
 include/cybozu/csv.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/csv.hpp b/include/cybozu/csv.hpp
index 9e832a5..170ceec 100644
--- a/include/cybozu/csv.hpp
+++ b/include/cybozu/csv.hpp
@@ -60,6 +60,7 @@ public:
 	{
 		if (eof_) return false;
 		line_++;
+		lineSize_ = 0;
 		out.clear();
 		enum {
 			Top,
-- 
2.43.0


From dc8bdedbf80c6b4af52ed006b24fcea0bc818af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:55 +0000
Subject: [PATCH 09/67] fix: SucVectorT must not count padding bits as zeros

---
 include/cybozu/sucvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/sucvector.hpp b/include/cybozu/sucvector.hpp
index 54c3039..97e2c23 100644
--- a/include/cybozu/sucvector.hpp
+++ b/include/cybozu/sucvector.hpp
@@ -176,7 +176,7 @@ class SucVectorT {
 				subNum1 += c;
 			}
 		}
-		numTbl_[0] = blkNum * 64 - num1;
+		numTbl_[0] = bitSize_ - num1;
 		numTbl_[1] = num1;
 		initSelTbl();
 		freezed_ = true;
-- 
2.43.0


From ace927575396f4c54edc3167d7c65f4c418b5cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:55 +0000
Subject: [PATCH 10/67] fix: SucVectorT must ignore bits of buf beyond bitSize

---
 include/cybozu/sucvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/sucvector.hpp b/include/cybozu/sucvector.hpp
index 97e2c23..cc2e623 100644
--- a/include/cybozu/sucvector.hpp
+++ b/include/cybozu/sucvector.hpp
@@ -164,6 +164,7 @@ class SucVectorT {
 				uint64_t v;
 				if (buf) {
 					v = pos < blkNum ? buf[pos++] : 0;
+					if (pos == blkNum && (bitSize_ % 64)) v &= cybozu::makeBitMask64(bitSize_ % 64); // ignore the bits out of bitSize_
 					blk.org[j] = v;
 				} else {
 					v = blk.org[j];
-- 
2.43.0


From 933f1ebb52cf2c42d3a3956f3da31dc78372acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:55 +0000
Subject: [PATCH 11/67] fix: CSucVector must ignore bits of buf beyond bitSize

---
 include/cybozu/csucvector.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/cybozu/csucvector.hpp b/include/cybozu/csucvector.hpp
index f28d287..ec7e2e7 100644
--- a/include/cybozu/csucvector.hpp
+++ b/include/cybozu/csucvector.hpp
@@ -63,14 +63,20 @@ struct InputStream {
 		: block_(block), bitSize_(bitSize), blockSize_((bitSize + 63) / 64), cur_(0)
 	{
 	}
+	uint64_t get(size_t q) const
+	{
+		if (q >= blockSize_) return 0;
+		uint64_t v = block_[q];
+		if (q == blockSize_ - 1 && (bitSize_ & 63)) v &= getMask(bitSize_ & 63); // ignore the bits out of bitSize_
+		return v;
+	}
 	uint64_t peek(size_t offset = 0) const
 	{
 		const size_t q = (cur_ + offset) / 64;
 		const size_t r = (cur_ + offset) & 63;
-		if (q >= blockSize_) return 0;
-		if (r == 0) return block_[q];
-		uint64_t L = block_[q];
-		uint64_t H = q < blockSize_ - 1 ? block_[q + 1] : 0;
+		if (r == 0) return get(q);
+		uint64_t L = get(q);
+		uint64_t H = get(q + 1);
 		return ((L >> r) & getMask(64 - r)) | (H << (64 - r));
 	}
 	void consume(size_t size)
-- 
2.43.0


From b73c48be2185fe519ace2d5268379ddb1924ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:55 +0000
Subject: [PATCH 12/67] fix: CSucVector::init must discard the previous block
 index

---
 include/cybozu/csucvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/csucvector.hpp b/include/cybozu/csucvector.hpp
index ec7e2e7..edee03b 100644
--- a/include/cybozu/csucvector.hpp
+++ b/include/cybozu/csucvector.hpp
@@ -496,6 +496,7 @@ struct CSucVector {
 	}
 	void initBlockVec()
 	{
+		blkVec.clear();
 		blkVec.reserve(bitSize_ / skip + 16);
 		uint32_t orgPos = 0;
 		uint32_t rk = 0;
-- 
2.43.0


From e32dba3300dc60c01ce2724c932c40ba03dcacbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:09 +0000
Subject: [PATCH 13/67] fix: FMindexT::init must discard the data of the
 previous text

---
 include/cybozu/fmindex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/fmindex.hpp b/include/cybozu/fmindex.hpp
index 161c5c4..c321b1b 100644
--- a/include/cybozu/fmindex.hpp
+++ b/include/cybozu/fmindex.hpp
@@ -88,6 +88,7 @@ public:
 				sum += charNumTbl[i];
 			}
 		} else {
+			freq.clear();
 			freq.init(begin, end);
 			charNum_ = freq.size() + 1; // +1 means last zero
 			if (charNum_ > maxCharNum) throw cybozu::Exception("FMindexT:initCf:too many alphabet");
@@ -158,6 +159,7 @@ public:
 		wm.init(bwt, getBitLen(charNum_));
 
 #if 1
+		alignedSa.clear();
 		cybozu::BitVector bv;
 		bv.resize(dataSize);
 		for (size_t i = 0; i < dataSize; i++) {
-- 
2.43.0


From ba0130c0733d1da6903d967603bf5fdab05b21b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:09 +0000
Subject: [PATCH 14/67] fix: FMindexT<uint16_t, true> always failed because of
 a one bit too large value width

---
 include/cybozu/fmindex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/fmindex.hpp b/include/cybozu/fmindex.hpp
index c321b1b..469be9c 100644
--- a/include/cybozu/fmindex.hpp
+++ b/include/cybozu/fmindex.hpp
@@ -156,7 +156,7 @@ public:
 		}
 		Vec bwt;
 		initBwt(bwt, v, sa);
-		wm.init(bwt, getBitLen(charNum_));
+		wm.init(bwt, getBitLen(charNum_ - 1)); // alphabet is [0, charNum_)
 
 #if 1
 		alignedSa.clear();
-- 
2.43.0


From 3e6a96f127cdf84b425f742401d317794a7abf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:00 +0000
Subject: [PATCH 15/67] fix: a copied Frequency must not refer to the elements
 of the original

---
 include/cybozu/frequency.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/cybozu/frequency.hpp b/include/cybozu/frequency.hpp
index 851ce45..acadf89 100644
--- a/include/cybozu/frequency.hpp
+++ b/include/cybozu/frequency.hpp
@@ -171,6 +171,20 @@ class Frequency {
 	}
 public:
 	Frequency(){ clear(); }
+	// idx2ref_ refers to m_ of its own object
+	Frequency(const Frequency& rhs)
+		: m_(rhs.m_)
+	{
+		if (!rhs.idx2ref_.empty()) initIdx2Ref();
+	}
+	Frequency& operator=(const Frequency& rhs)
+	{
+		if (this == &rhs) return *this;
+		m_ = rhs.m_;
+		idx2ref_.clear();
+		if (!rhs.idx2ref_.empty()) initIdx2Ref();
+		return *this;
+	}
 	template<class Iter>
 	Frequency(Iter begin, Iter end)
 	{
-- 
2.43.0


From 830b077a0267751eff613102bfae5503fbed5c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:56 +0000
Subject: [PATCH 16/67] fix: atoi must not accept text following the minimum
 value nor read beyond the text

---
 include/cybozu/atoi.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cybozu/atoi.hpp b/include/cybozu/atoi.hpp
index 3b5970a..215e88f 100644
--- a/include/cybozu/atoi.hpp
+++ b/include/cybozu/atoi.hpp
@@ -28,9 +28,13 @@ T convertToInt(bool *b, const char *p, size_t size, const char (&max)[n], T min,
 			// skip leading zero
 			while (i < size && p[i] == '0') i++;
 			// check minimum
-			if (isMinus && size - i >= n - 1 && memcmp(max, &p[i], n - 1) == 0) {
-				if (b) *b = true;
-				return min;
+			if (isMinus) {
+				size_t j = 0;
+				while (j < n - 1 && j < size - i && p[i + j] == max[j]) j++;
+				if (j == n - 1 && (j == size - i || p[i + j] == '\0')) {
+					if (b) *b = true;
+					return min;
+				}
 			}
 			T x = 0;
 			for (;;) {
-- 
2.43.0


From 9b9d79526d1c04c1b52b2617366bfa296133716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:56 +0000
Subject: [PATCH 17/67] fix: exception::makeString must not read beyond NUL

---
 include/cybozu/exception.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/exception.hpp b/include/cybozu/exception.hpp
index a9668ba..8137ede 100644
--- a/include/cybozu/exception.hpp
+++ b/include/cybozu/exception.hpp
@@ -63,7 +63,10 @@ namespace exception {
 /* get max 16 characters to avoid buffer overrun */
 inline std::string makeString(const char *str, size_t size)
 {
-	return std::string(str, std::min<size_t>(size, 16));
+	const size_t maxSize = std::min<size_t>(size, 16);
+	size_t n = 0;
+	while (n < maxSize && str[n]) n++;
+	return std::string(str, n);
 }
 
 #ifdef _WIN32
-- 
2.43.0


From 985aee747c22b636f6b42b7d1e4befa32a4bbb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:56 +0000
Subject: [PATCH 18/67] fix: itoa_local::intToDec of the minimum value of a
 type smaller than 64 bits

---
 include/cybozu/itoa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/itoa.hpp b/include/cybozu/itoa.hpp
index 9686938..b35029d 100644
--- a/include/cybozu/itoa.hpp
+++ b/include/cybozu/itoa.hpp
@@ -132,7 +132,7 @@ size_t intToDec(char *buf, size_t bufSize, T x)
 		}
 	}
 	bool negative = x < 0;
-	uint64_t absX = negative ? -x : x;
+	uint64_t absX = negative ? uint64_t(0) - uint64_t(x) : uint64_t(x);
 	size_t n = uintToDec(buf, bufSize, absX);
 	if (n == 0) return 0;
 	if (negative) {
-- 
2.43.0


From 0284a38348773a5d0e53c8f12fbf76ea29915191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:24 +0000
Subject: [PATCH 19/67] fix: Config must reject an empty key and an empty
 section name

---
 include/cybozu/config.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/config.hpp b/include/cybozu/config.hpp
index 1959342..d81809c 100644
--- a/include/cybozu/config.hpp
+++ b/include/cybozu/config.hpp
@@ -57,6 +57,9 @@ inline void split(std::string& key, std::string& value, const std::string& line)
 	key = line.substr(0, q - p);
 	trimEndSpace(key);
 	char badChar;
+	if (key.empty()) {
+		throw cybozu::Exception("config:split:empty key") << line;
+	}
 	if (!cybozu::config_local::isName(key, &badChar)) {
 		throw cybozu::Exception("config:split:bad key") << key << badChar;
 	}
@@ -151,6 +154,9 @@ public:
 		*/
 		void append(const std::string& key, const std::string& value)
 		{
+			if (key.empty()) {
+				throw cybozu::Exception("config:append:empty key");
+			}
 			char badChar;
 			if (!config_local::isName(key, &badChar)) {
 				throw cybozu::Exception("config:append:bad key") << key << badChar;
@@ -356,7 +362,7 @@ public:
 			if (c == ';' || c == '#') continue;
 			// section
 			if (c == '[') {
-				if (line[n - 1] != ']') {
+				if (line[n - 1] != ']' || n == 2) {
 					throw cybozu::Exception("config:load:bad section") << line;
 				}
 				section = appendSection(line.substr(1, n - 2));
-- 
2.43.0


From 59606a696da153ed66be42d3361cefbb1b7d8b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:24 +0000
Subject: [PATCH 20/67] fix: Config must reject CR in a value, which toString
 can't reproduce

---
 include/cybozu/config.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cybozu/config.hpp b/include/cybozu/config.hpp
index d81809c..6b09675 100644
--- a/include/cybozu/config.hpp
+++ b/include/cybozu/config.hpp
@@ -65,6 +65,9 @@ inline void split(std::string& key, std::string& value, const std::string& line)
 	}
 	const size_t valueTop = q + 1 - p;
 	value = line.substr(valueTop, line.size() - valueTop);
+	if (value.find('\r') != std::string::npos) {
+		throw cybozu::Exception("config:split:bad value") << key;
+	}
 }
 
 } // config_local
-- 
2.43.0


From 668f90fb069776b74ab15499714fb4db2692cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:09 +0000
Subject: [PATCH 21/67] fix: Option must reject a bad value for appendParamVec
 instead of dropping it

---
 include/cybozu/option.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/option.hpp b/include/cybozu/option.hpp
index 5dac705..ada1d0d 100644
--- a/include/cybozu/option.hpp
+++ b/include/cybozu/option.hpp
@@ -619,7 +619,10 @@ public:
 				}
 				if (!used) {
 					if (paramMode_ == P_variable) {
-						remains_.var.set(argv[pos]);
+						if (!remains_.var.set(argv[pos])) {
+							err.set(OptionError::BAD_VALUE, pos) << (std::string(argv[pos]) + " for " + remains_.opt);
+							goto ERR;
+						}
 					} else {
 						err.set(OptionError::REDUNDANT_VAL, pos) << argv[pos];
 						goto ERR;
-- 
2.43.0


From 79f11fb52d6674eb9d720bbea3e1a7eb4d09ac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:39 +0000
Subject: [PATCH 22/67] fix: a lone '-' is not the help option when none is set

With no help option declared, helpOpt_ is empty and the argument "-"
(option with an empty name) printed the usage and called exit(0).
---
 include/cybozu/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/option.hpp b/include/cybozu/option.hpp
index ada1d0d..5f88659 100644
--- a/include/cybozu/option.hpp
+++ b/include/cybozu/option.hpp
@@ -553,7 +553,7 @@ public:
 			}
 			if (isOpt(argv[pos])) {
 				const std::string str = argv[pos] + 1;
-				if (helpOpt_ == str) {
+				if (!helpOpt_.empty() && helpOpt_ == str) {
 					usage();
 					exit(0);
 				}
-- 
2.43.0


From 92f0836ab959f2762f4c60d3409a50857c7ca847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:36 +0000
Subject: [PATCH 23/67] fix: minixml reads <name/> as a complete tag

The '/' was taken into the tag name unless a blank or an attribute
preceded it, so that <name/> was read as a begin tag of "name/".
---
 include/cybozu/minixml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/minixml.hpp b/include/cybozu/minixml.hpp
index e22c891..ba1f2a2 100644
--- a/include/cybozu/minixml.hpp
+++ b/include/cybozu/minixml.hpp
@@ -209,7 +209,7 @@ inline bool isName(char c)
 
 inline bool isName2(char c)
 {
-	return !isSpace(c) && !isEqual(c) && !isQuote(c) && c != '>';
+	return !isSpace(c) && !isEqual(c) && !isQuote(c) && c != '>' && c != '/';
 }
 
 struct isAttrValue {
-- 
2.43.0


From cf27769c15478166f3c722a146ca62bba0546db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:26 +0000
Subject: [PATCH 24/67] fix: a negative Char is not a valid code point

Char is signed; GetCharSize, IsValidChar and toUtf8 treated negative
values as one byte characters.
---
 include/cybozu/string.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index fdb41c0..ab535a0 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -113,6 +113,7 @@ namespace string {
 */
 inline int GetCharSize(Char c)
 {
+	if (c < 0) return 0;
 	if (c <= 0x7f) return 1;
 	if (c <= 0x7ff) return 2;
 	if (c <= 0xd7ff) return 3;
@@ -216,6 +217,7 @@ bool GetCharFromUtf16(Char& c, Iterator& begin, const Iterator& end)
 
 inline int toUtf8(char out[4], Char c)
 {
+	if (c < 0) return 0;
 	if (c <= 0x7f) {
 		out[0] = static_cast<char>(c);
 		return 1;
-- 
2.43.0


From 27ae25f80020d318855f075afd4acdda78bda127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:26 +0000
Subject: [PATCH 25/67] fix: reject surrogate code points in UTF-16 conversion

GetCharFromUtf16 accepted a lone trail surrogate and toUtf16 wrote
surrogate (and negative) code points as they were.
---
 include/cybozu/string.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index ab535a0..abda7aa 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -200,6 +200,7 @@ bool GetCharFromUtf16(Char& c, Iterator& begin, const Iterator& end)
 		static inline bool isTrail(Char c) { return (c & 0xfffffc00) == 0xdc00; }
 	};
 	Char16 c0 = *begin++;
+	if (string_local::isTrail(c0)) return false;
 	if (!string_local::isLead(c0)) {
 		c = c0;
 		return true;
@@ -245,6 +246,7 @@ inline int toUtf8(char out[4], Char c)
 
 inline int toUtf16(Char16 out[2], Char c)
 {
+	if (!IsValidChar(c)) return 0;
 	if (c <= 0xffff) {
 		out[0] = static_cast<Char16>(c);
 		return 1;
-- 
2.43.0


From ab4328a144ed4e1815db8595c1c895dcd66f35bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:26 +0000
Subject: [PATCH 26/67] fix: String::assign with (a part of) the string itself

The string was cleared before the argument was read, and also when the
offset was out of range.
---
 include/cybozu/string.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index abda7aa..d85e7d1 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -619,7 +619,7 @@ public:
 	*/
 	StringT& assign(const StringT& str)
 	{
-		clear(); return append(str);
+		str_.assign(str.str_); return *this;
 	}
 
 	/**
@@ -630,7 +630,7 @@ public:
 	*/
 	StringT& assign(const StringT& str, size_type off, size_type count)
 	{
-		clear(); return append(str, off, count);
+		str_.assign(str.str_, off, count); return *this;
 	}
 
 	/**
@@ -640,7 +640,7 @@ public:
 	*/
 	StringT& assign(const CharT *str, size_type count)
 	{
-		return assign(str, str + count);
+		str_.assign(str, count); return *this;
 	}
 
 	/**
@@ -649,7 +649,7 @@ public:
 	*/
 	StringT& assign(const CharT *str)
 	{
-		clear(); return append(str);
+		str_.assign(str); return *this;
 	}
 	StringT& assign(const Char16 *str)
 	{
@@ -674,7 +674,9 @@ public:
 	template<class Iterator>
 	StringT& assign(Iterator begin, Iterator end, typename string_local::disable_if<string_local::IsInt<Iterator>::value>::type* = 0)
 	{
-		clear(); return append(begin, end);
+		BasicString str(StringT(begin, end).str_);
+		str_.swap(str);
+		return *this;
 	}
 
 	// assign [First, end), const pointers
-- 
2.43.0


From b03267ace4bb343e660569e202af44fb60900dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:26 +0000
Subject: [PATCH 27/67] fix: String::append of a range of the string itself

push_back may reallocate the characters that are being read.
---
 include/cybozu/string.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index d85e7d1..811bfca 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -528,7 +528,7 @@ public:
 	*/
 	StringT& append(const CharT *str, size_type count)
 	{
-		return append(str, str + count);
+		str_.append(str, count); return *this;
 	}
 
 	/**
@@ -558,11 +558,13 @@ public:
 	template<class Iterator>
 	StringT& append(Iterator begin, Iterator end, typename string_local::disable_if<string_local::IsInt<Iterator>::value>::type* = 0)
 	{
+		BasicString str;
 		while (begin != end) {
 			CharT c;
 			c = getOneChar(begin, end);
-			str_.push_back(c);
+			str.push_back(c);
 		}
+		str_.append(str);
 		return *this;
 	}
 
-- 
2.43.0


From 702f1bd8e647f699edd0acb04f3fbb56c8d37985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:26 +0000
Subject: [PATCH 28/67] fix: CaseFind of a non-ASCII target in a Unicode string

The number of bytes of the target was used as its number of characters,
so that it was never found and characters past its end were read.
---
 include/cybozu/string_operation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/string_operation.hpp b/include/cybozu/string_operation.hpp
index 92a0ddf..a169a28 100644
--- a/include/cybozu/string_operation.hpp
+++ b/include/cybozu/string_operation.hpp
@@ -280,9 +280,9 @@ bool CaseEqual(const StringT& lhs, const char *rhs)
 template<class CharT>
 const CharT *CaseFind(const CharT *begin, const CharT *end, const char *targetBegin, const char *targetEnd = 0)
 {
-	const size_t n = targetEnd ? targetEnd - targetBegin : ::strlen(targetBegin);
-	typename string_local::SelectString<CharT>::string_type t(targetBegin, n);
+	typename string_local::SelectString<CharT>::string_type t(targetBegin, targetEnd ? targetEnd - targetBegin : ::strlen(targetBegin));
 	ToLower(t);
+	const size_t n = t.size();
 	while (begin + n <= end) {
 		bool found = true;
 		for (size_t i = 0; i < n; i++) {
-- 
2.43.0


From 85e9024c801602e5bfdc78128c8308dee9909151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:26 +0000
Subject: [PATCH 29/67] fix: ToLower/ToUpper appending a string to itself wrote
 past its end

---
 include/cybozu/string_operation.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/cybozu/string_operation.hpp b/include/cybozu/string_operation.hpp
index a169a28..91bf335 100644
--- a/include/cybozu/string_operation.hpp
+++ b/include/cybozu/string_operation.hpp
@@ -126,9 +126,10 @@ inline Iterator GetTrimPosition(Iterator begin, Iterator &end, bool (*isSpace)(t
 template<class StringT1, class StringT2, class Func>
 void ChangeCase(StringT1& out, const StringT2& in, Func f, bool doAppend)
 {
-	size_t offset = doAppend ? out.size() : 0;
-	out.resize(offset + in.size());
-	std::transform(in.begin(), in.end(), out.begin() + offset, f);
+	const size_t offset = doAppend ? out.size() : 0;
+	const size_t n = in.size();
+	out.resize(offset + n);
+	std::transform(in.begin(), in.begin() + n, out.begin() + offset, f);
 }
 
 template<class CharT>struct SelectString;
-- 
2.43.0


From 7bc52fcfc921605ea3c06982d854fbcb58471924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:26 +0000
Subject: [PATCH 30/67] fix: CaseCompare orders bytes above 0x7f like
 std::string

They were compared as signed or unsigned depending on the compiler.
---
 include/cybozu/string_operation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/string_operation.hpp b/include/cybozu/string_operation.hpp
index 91bf335..a17d7c5 100644
--- a/include/cybozu/string_operation.hpp
+++ b/include/cybozu/string_operation.hpp
@@ -218,8 +218,8 @@ int CaseCompare(const CharT *lhs, size_t lhsSize, const CharT *rhs, size_t rhsSi
 	for (size_t i = 0; i < n; i++) {
 		CharT cR = cybozu::tolower(lhs[i]);
 		CharT cL = cybozu::tolower(rhs[i]);
-		if (cR < cL) return -1;
-		if (cR > cL) return 1;
+		if (std::char_traits<CharT>::lt(cR, cL)) return -1;
+		if (std::char_traits<CharT>::lt(cL, cR)) return 1;
 	}
 	if (lhsSize < rhsSize) return -1;
 	if (lhsSize > rhsSize) return 1;
-- 
2.43.0


From aea0f21691671a4cda6e4952c4d67223092acb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:58 +0000
Subject: [PATCH 31/67] fix: zlib: verify the gzip trailer when decompressing

---
 include/cybozu/zlib.hpp | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/zlib.hpp b/include/cybozu/zlib.hpp
index 41835f0..d3a4283 100644
--- a/include/cybozu/zlib.hpp
+++ b/include/cybozu/zlib.hpp
@@ -216,6 +216,22 @@ class ZlibDecompressorT {
 		}
 		throw cybozu::Exception("zlib:ZlibDecompressorT:readGzipHeader:bad gzip header") << std::string(header, 10);
 	}
+	/*
+		the trailer after the deflated data has crc32 and size(mod 2^32) of the decompressed data
+	*/
+	void readGzipTrailer()
+	{
+		char tail[8];
+		size_t n = 0;
+		while (n < sizeof(tail) && z_.avail_in > 0) {
+			tail[n++] = (char)*z_.next_in++;
+			z_.avail_in--;
+		}
+		readAll(tail + n, sizeof(tail) - n);
+		if (cybozu::Get32bitAsLE(&tail[0]) != crc_ || cybozu::Get32bitAsLE(&tail[4]) != totalSize_) {
+			throw cybozu::Exception("zlib:ZlibDecompressorT:readGzipTrailer:bad crc or size");
+		}
+	}
 	ZlibDecompressorT(const ZlibDecompressorT&);
 	void operator=(const ZlibDecompressorT&);
 public:
@@ -265,16 +281,29 @@ public:
 			readGzipHeader();
 			readGzipHeader_ = true;
 		}
+		if (ret_ == Z_STREAM_END) return 0;
 		z_.next_out = (Bytef*)buf;
 		z_.avail_out = size;
 		do {
 			if (z_.avail_in == 0) {
 				z_.avail_in = (uint32_t)cybozu::readSome(buf_, maxBufSize, is_);
-				if (ret_ == Z_STREAM_END && z_.avail_in == 0) return 0;
 				z_.next_in = (Bytef*)buf_;
 			}
+			const Bytef *prev = z_.next_out;
 			ret_ = inflate(&z_, Z_NO_FLUSH);
-			if (ret_ == Z_STREAM_END) break;
+			if (useGzip_) {
+				const uint32_t n = (uint32_t)(z_.next_out - prev);
+				crc_ = crc32(crc_, prev, n);
+				totalSize_ += n;
+			}
+			if (ret_ == Z_STREAM_END) {
+				if (useGzip_) {
+					ret_ = Z_DATA_ERROR; // not finished if the trailer is bad
+					readGzipTrailer();
+					ret_ = Z_STREAM_END;
+				}
+				break;
+			}
 			if (ret_ != Z_OK) {
 				throw cybozu::Exception("zlib:ZlibDecompressorT:readSome:inflate") << zlib_local::safePtr(z_.msg);
 			}
-- 
2.43.0


From 4f6e2450dd424b1f156ae912c021a0dca970e81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:58 +0000
Subject: [PATCH 32/67] fix: zlib: readSome of zero bytes returns zero instead
 of throwing

---
 include/cybozu/zlib.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/zlib.hpp b/include/cybozu/zlib.hpp
index d3a4283..763452f 100644
--- a/include/cybozu/zlib.hpp
+++ b/include/cybozu/zlib.hpp
@@ -281,7 +281,7 @@ public:
 			readGzipHeader();
 			readGzipHeader_ = true;
 		}
-		if (ret_ == Z_STREAM_END) return 0;
+		if (size == 0 || ret_ == Z_STREAM_END) return 0;
 		z_.next_out = (Bytef*)buf;
 		z_.avail_out = size;
 		do {
-- 
2.43.0


From 6eaa0ae8fb6374dda932bddfdfe8173160e496e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:19 +0000
Subject: [PATCH 33/67] fix: File::read throws at the end of the file instead
 of looping forever

---
 include/cybozu/file.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index e177a2c..9607044 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -293,6 +293,7 @@ public:
 		char *p = static_cast<char *>(buf);
 		while (bufSize > 0) {
 			size_t readSize = readSome(p, bufSize);
+			if (readSize == 0) throw cybozu::Exception("File:read:unexpected end of file") << name_ << bufSize;
 			p += readSize;
 			bufSize -= readSize;
 		}
-- 
2.43.0


From 97de63f46d850165d05f0fddd4114b8cd5d9f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:19 +0000
Subject: [PATCH 34/67] fix: DoesFileExist: the root directory exists

---
 include/cybozu/file.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index 9607044..2f062d0 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -467,7 +467,7 @@ inline bool DoesFileExist(const std::string& path)
 	if (path.empty()) return false;
 	std::string p = path;
 	char c = p[p.size() - 1];
-	if (c == '/' || c == '\\') {
+	if (p.size() > 1 && (c == '/' || c == '\\')) {
 		p.resize(p.size() - 1);
 	}
 #ifdef _WIN32
-- 
2.43.0


From eb1010ae9022708cfae3424e473bf9455bf21abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:58 +0000
Subject: [PATCH 35/67] fix: File: close the descriptor in the destructor even
 if sync fails

---
 include/cybozu/file.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index 2f062d0..07a143d 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -163,6 +163,13 @@ public:
 		if (!doClose_) return;
 		try {
 			sync();
+		} catch (std::exception& e) {
+			fprintf(stderr, "File:dstr:%s\n", e.what());
+		} catch (...) {
+			fprintf(stderr, "File:dstr:unknown\n");
+		}
+		// close even if sync failed
+		try {
 			close();
 		} catch (std::exception& e) {
 			fprintf(stderr, "File:dstr:%s\n", e.what());
-- 
2.43.0


From 9f790f87e887062789c65ea36bcc744209459bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:22 +0000
Subject: [PATCH 36/67] fix: parallel_for: report exceptions with an empty
 message and those not derived from std::exception

---
 include/cybozu/parallel.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/parallel.hpp b/include/cybozu/parallel.hpp
index 2d0afec..01d0393 100644
--- a/include/cybozu/parallel.hpp
+++ b/include/cybozu/parallel.hpp
@@ -21,11 +21,13 @@ struct Thread : public cybozu::ThreadBase {
 	N end_;
 	N threadIdx_;
 	std::string err_;
+	bool hasErr_;
 	Thread()
 		: t_(0)
 		, begin_(0)
 		, end_(0)
 		, threadIdx_(0)
+		, hasErr_(false)
 	{
 	}
 	void init(T& t, N begin, N end, N threadIdx)
@@ -35,6 +37,7 @@ struct Thread : public cybozu::ThreadBase {
 		end_ = end;
 		threadIdx_ = threadIdx;
 		err_.clear();
+		hasErr_ = false;
 	}
 	void threadEntry()
 	{
@@ -42,11 +45,17 @@ struct Thread : public cybozu::ThreadBase {
 			try {
 				if (!(*t_)(i, threadIdx_)) break;
 			} catch (std::exception& e) {
+				hasErr_ = true;
 				err_ = e.what();
 				break;
+			} catch (...) {
+				hasErr_ = true;
+				err_ = "unknown exception";
+				break;
 			}
 		}
 	}
+	bool hasErr() const { return hasErr_; }
 	const std::string& getErr() const { return err_; }
 };
 
@@ -79,8 +88,7 @@ void parallel_for(T& target, N n, N threadNum)
 			if (!thread[i].joinThread()) throw cybozu::Exception("cybozu:parallel_for:can't joinThread") << i;
 		}
 		for (N i = 0; i < threadNum; i++) {
-			const std::string& err = thread[i].getErr();
-			if (!err.empty()) throw cybozu::Exception("cybozu:paralell_for") << i << err;
+			if (thread[i].hasErr()) throw cybozu::Exception("cybozu:paralell_for") << i << thread[i].getErr();
 		}
 	}
 }
-- 
2.43.0


From c2be2f31a677b8d36b168e86cff6962b94a457c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:22 +0000
Subject: [PATCH 37/67] fix: ThreadBase: do not join a handle left by a failed
 start

---
 include/cybozu/thread.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/thread.hpp b/include/cybozu/thread.hpp
index ad92897..17f5f72 100644
--- a/include/cybozu/thread.hpp
+++ b/include/cybozu/thread.hpp
@@ -200,7 +200,9 @@ public:
 
 	bool beginThread(int stackSize = 0)
 	{
-		return thread::Begin(threadHdl_, threadLoopIF, this, stackSize);
+		if (thread::Begin(threadHdl_, threadLoopIF, this, stackSize)) return true;
+		threadHdl_ = 0; // undefined if pthread_create fails
+		return false;
 	}
 
 	bool detachThread()
-- 
2.43.0


From adde49e9668cbb4008120dc92fc56f99f18c0937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:22 +0000
Subject: [PATCH 38/67] fix: Event before C++11: auto-reset as in the other
 implementations, no return on an interrupted read

---
 include/cybozu/event.hpp | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/include/cybozu/event.hpp b/include/cybozu/event.hpp
index c871b96..8068fd5 100644
--- a/include/cybozu/event.hpp
+++ b/include/cybozu/event.hpp
@@ -13,6 +13,7 @@
 	#include <windows.h>
 #else
 	#include <unistd.h>
+	#include <pthread.h>
 #endif
 #include <cybozu/exception.hpp>
 #if CYBOZU_CPP_VERSION >= CYBOZU_CPP_VERSION_CPP11
@@ -86,34 +87,47 @@ public:
 
 #else
 class Event {
-	int pipefd_[2];
+	bool isSignaled_;
+	pthread_mutex_t m_;
+	pthread_cond_t cv_;
 	Event(const Event&);
 	void operator=(const Event&);
 public:
 	Event()
+		: isSignaled_(false)
 	{
-		if (::pipe(pipefd_) < 0) {
+		if (pthread_mutex_init(&m_, NULL) != 0) {
+			cybozu::EventException e;
+			e << "pthread_mutex_init";
+			throw e;
+		}
+		if (pthread_cond_init(&cv_, NULL) != 0) {
+			pthread_mutex_destroy(&m_);
 			cybozu::EventException e;
-			e << "pipe";
+			e << "pthread_cond_init";
 			throw e;
 		}
 	}
 	~Event()
 	{
-		::close(pipefd_[0]);
-		::close(pipefd_[1]);
+		pthread_cond_destroy(&cv_);
+		pthread_mutex_destroy(&m_);
 	}
 	void wakeup()
 	{
-		char c = 'a';
-		ssize_t size = ::write(pipefd_[1], &c, 1);
-		cybozu::disable_warning_unused_variable(size);
+		pthread_mutex_lock(&m_);
+		isSignaled_ = true;
+		pthread_cond_signal(&cv_);
+		pthread_mutex_unlock(&m_);
 	}
 	void wait()
 	{
-		char c;
-		ssize_t size = ::read(pipefd_[0], &c, 1);
-		cybozu::disable_warning_unused_variable(size);
+		pthread_mutex_lock(&m_);
+		while (!isSignaled_) {
+			pthread_cond_wait(&cv_, &m_);
+		}
+		isSignaled_ = false;
+		pthread_mutex_unlock(&m_);
 	}
 };
 #endif
-- 
2.43.0


From d157584678a8755e595b904d5c27b71f9dbe5a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:14 +0000
Subject: [PATCH 39/67] fix: parallel_for: join the started threads before
 destroying them when another one cannot start

---
 include/cybozu/parallel.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/parallel.hpp b/include/cybozu/parallel.hpp
index 01d0393..64953e9 100644
--- a/include/cybozu/parallel.hpp
+++ b/include/cybozu/parallel.hpp
@@ -82,7 +82,11 @@ void parallel_for(T& target, N n, N threadNum)
 			begin = end;
 		}
 		for (N i = 0; i < threadNum; i++) {
-			if (!thread[i].beginThread()) throw cybozu::Exception("cybozu:parallel_for:can't beginThread") << i;
+			if (!thread[i].beginThread()) {
+				// finish the running threads before they are destroyed
+				for (N j = 0; j < i; j++) thread[j].joinThread();
+				throw cybozu::Exception("cybozu:parallel_for:can't beginThread") << i;
+			}
 		}
 		for (N i = 0; i < threadNum; i++) {
 			if (!thread[i].joinThread()) throw cybozu::Exception("cybozu:parallel_for:can't joinThread") << i;
-- 
2.43.0


From e0bff8a4c32631d9095b4ee75658d6f94ee13de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:30 +0000
Subject: [PATCH 40/67] fix: Socket::connect and bind must not leave a valid
 socket when they fail

---
 include/cybozu/socket.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index c7493bd..6b0a480 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -341,6 +341,12 @@ private:
 	cybozu::socket_local::SocketHandle sd_;
 	Socket(const Socket&);
 	void operator=(const Socket&);
+	// close the socket unless self is cleared
+	struct CloseOnError {
+		Socket *self;
+		explicit CloseOnError(Socket *self) : self(self) {}
+		~CloseOnError() { if (self) self->close(cybozu::DontThrow); }
+	};
 #ifdef WIN32
 	void setTimeout(int type, int msec)
 	{
@@ -550,6 +556,7 @@ public:
 		if (!isValid()) {
 			throw cybozu::Exception("Socket:connect:socket") << cybozu::NetErrorNo();
 		}
+		CloseOnError closeOnError(this);
 		if (msec == 0) {
 			if (::connect(sd_, addr.get(), addr.getSize()) < 0) {
 				throw cybozu::Exception("Socket:connect") << cybozu::NetErrorNo() << addr.toStr();
@@ -569,6 +576,7 @@ public:
 			}
 			setBlocking(true);
 		}
+		closeOnError.self = 0;
 	}
 
 	static const int allowIPv4 = 1;
@@ -584,6 +592,7 @@ public:
 		if (!isValid()) {
 			throw cybozu::Exception("Socket:bind:socket") << cybozu::NetErrorNo();
 		}
+		CloseOnError closeOnError(this);
 		setSocketOption(SO_REUSEADDR, 1);
 		struct sockaddr_in6 addr6;
 		struct sockaddr_in addr4;
@@ -605,6 +614,7 @@ public:
 		}
 		if (::bind(sd_, addr, addrLen) == 0) {
 			if (::listen(sd_, SOMAXCONN) == 0) {
+				closeOnError.self = 0;
 				return;
 			}
 		}
-- 
2.43.0


From e3c98fa04964ca3fdf01d4d610f76d69b94e2ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:30 +0000
Subject: [PATCH 41/67] fix: Socket::setLinger passed the bytes of a pointer to
 the system

---
 include/cybozu/socket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index 6b0a480..bfad8ca 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -720,7 +720,7 @@ public:
 		struct linger linger;
 		linger.l_onoff = l_onoff;
 		linger.l_linger = l_linger;
-		setSocketOption(SO_LINGER, &linger);
+		setSocketOption(SO_LINGER, linger);
 	}
 	/**
 		get receive buffer size
-- 
2.43.0


From 605d52afae94b5318d5218a987df5985448b6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:30 +0000
Subject: [PATCH 42/67] fix: Socket::bind and accept leaked the descriptor
 which the socket held

---
 include/cybozu/socket.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index bfad8ca..f3ebec1 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -588,6 +588,7 @@ public:
 	void bind(uint16_t port, int mode = allowIPv4 | allowIPv6)
 	{
 		const int family = (mode & allowIPv6) ? AF_INET6 : AF_INET;
+		close();
 		sd_ = ::socket(family, SOCK_STREAM, IPPROTO_TCP);
 		if (!isValid()) {
 			throw cybozu::Exception("Socket:bind:socket") << cybozu::NetErrorNo();
@@ -682,6 +683,7 @@ public:
 	*/
 	void accept(Socket& client, SocketAddr *paddr = 0) const
 	{
+		client.close();
 		if (paddr) {
 			struct sockaddr *psa = &paddr->addr_.sa;
 			paddr->addrlen_ = sizeof(paddr->addr_);
-- 
2.43.0


From 8457e9c72d7d0e0ac61d1c89201b3ff19297c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:10 +0000
Subject: [PATCH 43/67] fix: Time::fromString must not read beyond a short text
 to report it

---
 include/cybozu/time.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/time.hpp b/include/cybozu/time.hpp
index fbf7355..21c1347 100644
--- a/include/cybozu/time.hpp
+++ b/include/cybozu/time.hpp
@@ -160,7 +160,7 @@ public:
 			*pb = false;
 			return;
 		}
-		throw cybozu::Exception("time::fromString") << std::string(begin, 24);
+		throw cybozu::Exception("time::fromString") << std::string(begin, len < 24 ? len : 24);
 	}
 	void fromString(const char *begin, const char *end) { fromString(0, begin, end); }
 
-- 
2.43.0


From c2f3e52c335220fe1e4f36dfb31fb7f19fc6c2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:10 +0000
Subject: [PATCH 44/67] fix: Time::fromString must not read beyond the end for
 a month name and one digit of seconds

---
 include/cybozu/time.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/time.hpp b/include/cybozu/time.hpp
index 21c1347..9fe3b9f 100644
--- a/include/cybozu/time.hpp
+++ b/include/cybozu/time.hpp
@@ -128,6 +128,7 @@ public:
 			p += 2;
 			if (*p++ != ':') goto ERR;
 
+			if (end - p < 2) goto ERR;
 			tm.tm_sec = getNum(&b, p, 2, 0, 59);
 			if (!b) goto ERR;
 			p += 2;
-- 
2.43.0


From 32fad819ff6ebe3f927f15c753cd1f672e939fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:10 +0000
Subject: [PATCH 45/67] fix: Time::fromString accepted -0 and a digit followed
 by NUL as a number

---
 include/cybozu/time.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cybozu/time.hpp b/include/cybozu/time.hpp
index 9fe3b9f..ec8b510 100644
--- a/include/cybozu/time.hpp
+++ b/include/cybozu/time.hpp
@@ -232,6 +232,13 @@ private:
 
 	int getNum(bool *b, const char *in, size_t len, int min, int max) const
 	{
+		// atoi accepts a sign and stops at NUL
+		for (size_t i = 0; i < len; i++) {
+			if (in[i] < '0' || '9' < in[i]) {
+				*b = false;
+				return 0;
+			}
+		}
 		int ret = cybozu::atoi(b, in, len);
 		if (min <= ret && ret <= max) {
 			return ret;
-- 
2.43.0


From 60d5f79c86e16f501492d2272ba078572a8f7e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:10 +0000
Subject: [PATCH 46/67] fix: Time::fromString must reject a day which the month
 does not have

---
 include/cybozu/time.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/time.hpp b/include/cybozu/time.hpp
index ec8b510..b4748ca 100644
--- a/include/cybozu/time.hpp
+++ b/include/cybozu/time.hpp
@@ -114,6 +114,7 @@ public:
 
 			tm.tm_mday = getNum(&b, p, 2, 1, 31);
 			if (!b) goto ERR;
+			const int mday = tm.tm_mday;
 			p += 2;
 			if (*p != ' ' && *p != 'T') goto ERR;
 			p++;
@@ -151,6 +152,7 @@ public:
 #else
 			time_ = timegm(&tm);
 #endif
+			if (tm.tm_mday != mday) goto ERR; // the month doesn't have the day
 			if (pb) {
 				*pb = true;
 			}
-- 
2.43.0


From 1f01e3a3d87a4ebad58671bab292856d689fbc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:07 +0000
Subject: [PATCH 47/67] fix: RandomGenerator::read asks for no more bytes than
 the buffer holds when it is 2 GiB or larger

---
 include/cybozu/random_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/random_generator.hpp b/include/cybozu/random_generator.hpp
index 303b31c..be0f0d6 100644
--- a/include/cybozu/random_generator.hpp
+++ b/include/cybozu/random_generator.hpp
@@ -92,7 +92,7 @@ private:
 			return;
 		}
 		const size_t byteSize = sizeof(T) * bufNum;
-		*pb = ::fread(buf, 1, (int)byteSize, fp_) == byteSize;
+		*pb = ::fread(buf, 1, byteSize, fp_) == byteSize;
 	}
 private:
 	FILE *fp_;
-- 
2.43.0


From 7b37caa0085dfe6ce04777091e57a9aa2b6fe4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:07 +0000
Subject: [PATCH 48/67] fix: NormalRandomGenerator seeds its generator instead
 of shifting its range

---
 include/cybozu/nlp/random.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/random.hpp b/include/cybozu/nlp/random.hpp
index 93f397d..c2bd542 100644
--- a/include/cybozu/nlp/random.hpp
+++ b/include/cybozu/nlp/random.hpp
@@ -52,7 +52,7 @@ class NormalRandomGenerator {
 	double s_;
 public:
 	explicit NormalRandomGenerator(double u = 0, double s = 1, int seed = 0)
-		: gen_(seed)
+		: gen_(0, 1, seed)
 		, u_(u)
 		, s_(s)
 	{
-- 
2.43.0


From ffeba98fb94349265e6063f7c73a1485769654d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:37 +0000
Subject: [PATCH 49/67] fix: Union::getMode must return the mode

---
 include/cybozu/nlp/sparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/sparse.hpp b/include/cybozu/nlp/sparse.hpp
index 3442ff1..c2ce252 100644
--- a/include/cybozu/nlp/sparse.hpp
+++ b/include/cybozu/nlp/sparse.hpp
@@ -449,7 +449,7 @@ class Union {
 			if (isEnd) return;
 			detectMode();
 		}
-		Mode getMode() const { mode_; }
+		Mode getMode() const { return mode_; }
 		size_t pos() const { return pos_; }
 		bool hasVal1() const { return mode_ == Only1 || mode_ == Small || mode_ == Equal; }
 		bool hasVal2() const { return mode_ == Only2 || mode_ == Equal || mode_ == Large; }
-- 
2.43.0


From 7641a733e65dc55d74b5bd72cd119200ec3e3147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:46 +0000
Subject: [PATCH 50/67] fix: TopScore::add must not write outside the table
 after setSize, after getTable or with a size below 2

---
 include/cybozu/nlp/top_score.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/cybozu/nlp/top_score.hpp b/include/cybozu/nlp/top_score.hpp
index 7b4e446..6e4feb6 100644
--- a/include/cybozu/nlp/top_score.hpp
+++ b/include/cybozu/nlp/top_score.hpp
@@ -5,6 +5,7 @@
 	@author MITSUNARI Shigeo(@herumi)
 */
 #include <vector>
+#include <algorithm>
 
 namespace cybozu { namespace nlp {
 
@@ -40,6 +41,8 @@ public:
 	}
 	void add(Double score, T idx)
 	{
+		if (maxSize_ == 0) return;
+		tbl_.resize(maxSize_); // setSize() and getTable() may have made it smaller
 		// short cut
 		if (size_ == maxSize_ && score <= tbl_[size_ - 1].score) {
 			return;
@@ -48,9 +51,9 @@ public:
 		if (size_ > 0) {
 			for (size_t i = 0; i < size_; i++) {
 				if (score > tbl_[i].score) {
-					int end = (int)std::min(maxSize_ - 2, size_ - 1);
-					for (int j = end; j >= (int)i; j--) {
-						tbl_[j + 1] = tbl_[j];
+					int end = (int)std::min(maxSize_ - 1, size_);
+					for (int j = end; j > (int)i; j--) {
+						tbl_[j] = tbl_[j - 1];
 					}
 					pos = (int)i;
 					break;
-- 
2.43.0


From f51af6aaae50e9f013f72cc4e0a3dc809eb99680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:28 +0000
Subject: [PATCH 51/67] fix: AlignedArray must refuse a size whose number of
 bytes overflows

---
 include/cybozu/array.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/array.hpp b/include/cybozu/array.hpp
index 30df366..a7e9688 100644
--- a/include/cybozu/array.hpp
+++ b/include/cybozu/array.hpp
@@ -77,6 +77,7 @@ class AlignedArray {
 	size_t allocSize_;
 	T *alloc(size_t size) const
 	{
+		if (size > ~size_t(0) / sizeof(T)) throw std::bad_alloc();
 		T *p = static_cast<T*>(AlignedMalloc(size * sizeof(T), N));
 		if (p == 0) throw std::bad_alloc();
 		return p;
-- 
2.43.0


From 87b67bd1d5725476228d6611fdc65e2670ffb5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:12 +0000
Subject: [PATCH 52/67] fix: process::Start closed descriptors up to an
 indeterminate number, possibly its own status pipe

---
 include/cybozu/process.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 62c264b..6b98add 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -66,6 +66,7 @@ public:
 			fd_[mode] = -1;
 		}
 	}
+	int get(Mode mode) const { return fd_[mode]; }
 	int write(const char* buf, size_t size)
 	{
 		return ::write(fd_[Write], buf, size);
@@ -169,8 +170,9 @@ static inline bool Start(Handle* hdl, const std::string& exe, const std::vector<
 		}
 		{
 			const int ret = static_cast<int>(sysconf(_SC_OPEN_MAX));
-			const int maxFd = ret < 0 ? 1024 : maxFd;
+			const int maxFd = ret < 0 ? 1024 : ret;
 			for (int i = 3; i < maxFd; i++) {
+				if (i == pipe.get(Pipe::Write)) continue; // closed by execv
 				close(i);
 			}
 		}
-- 
2.43.0


From d51da93dbac83aea950399978e5ed5e4f26c610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:12 +0000
Subject: [PATCH 53/67] fix: a child that could not execute ran the parent's
 exit handlers and wrote its buffers again

---
 include/cybozu/process.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 6b98add..c4f6534 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -184,7 +184,7 @@ ERR_EXIT:
 		*/
 		pipe.write("x", 1);
 		pipe.close(Pipe::Write);
-		::exit(1);
+		::_exit(1); // neither handlers nor buffers of the parent
 	}
 
 	pipe.close(Pipe::Write);
-- 
2.43.0


From 03c8ef5938270af5fe8061771bb1587bcd4c6892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:12 +0000
Subject: [PATCH 54/67] fix: a child that could not execute was left as a
 zombie

---
 include/cybozu/process.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index c4f6534..1132735 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -195,7 +195,7 @@ ERR_EXIT:
 		otherwise gets 'x' from child
 	*/
 	if (pipe.read(buf, 1) == 1) {
-		waitpid(pid, 0, WNOHANG);
+		waitpid(pid, 0, 0);
 		return false;
 	}
 
-- 
2.43.0


From 1fa07960eee5b21f624b04de7e1c9bbb00741776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:12 +0000
Subject: [PATCH 55/67] fix: a standard descriptor that is closed in the parent
 stayed closed instead of being /dev/null in the child

---
 include/cybozu/process.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 1132735..b336c48 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -82,12 +82,13 @@ public:
 	}
 };
 
-bool toDevNull(int fd, int flags)
+inline bool toDevNull(int fd, int flags)
 {
 	int newFd = open("/dev/null", flags);
 
 	if (newFd < 0) return false;
 
+	if (newFd == fd) return true;
 	int ret = dup2(newFd, fd);
 	close(newFd);
 	return ret >= 0;
-- 
2.43.0


From 85263eb43cfd7cb4b8e7db32ea8c303ef744e0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:12 +0000
Subject: [PATCH 56/67] fix: process::Start reported success for a failed
 execution when a signal interrupted it

---
 include/cybozu/process.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index b336c48..83a59db 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -23,6 +23,7 @@
 	#include <sys/types.h>
 	#include <sys/wait.h>
 	#include <stdlib.h>
+	#include <errno.h>
 #endif
 
 namespace cybozu {
@@ -73,7 +74,11 @@ public:
 	}
 	int read(char* buf, size_t size)
 	{
-		return ::read(fd_[Read], buf, size);
+		int ret;
+		do {
+			ret = ::read(fd_[Read], buf, size);
+		} while (ret < 0 && errno == EINTR);
+		return ret;
 	}
 	~Pipe()
 	{
-- 
2.43.0


From f3f0a6189f00083596252cd06fb69f369e454e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:57 +0000
Subject: [PATCH 57/67] fix: regex(String) uses the whole pattern, also behind
 a NUL character

---
 include/cybozu/regex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/regex.hpp b/include/cybozu/regex.hpp
index fec9ff4..5480bd0 100644
--- a/include/cybozu/regex.hpp
+++ b/include/cybozu/regex.hpp
@@ -321,7 +321,7 @@ public:
 	explicit regex(const Char16* p, flag_type f = regex_constants::ECMAScript)
 		: Base(String(p).c_str(), f) {}
 	explicit regex(const String& p, flag_type f = regex_constants::ECMAScript)
-		: Base(p.c_str(), f) {}
+		: Base(p.c_str(), p.size(), f) {}
 	regex(const Char* p1, const Char* p2, flag_type f = regex_constants::ECMAScript)
 		: Base(p1, p2, f) {}
 	regex(const Char* p, size_type len, flag_type f)
-- 
2.43.0


From e77fe7d8de9826d997b3aefdd64452c66e7ea374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:55 +0000
Subject: [PATCH 58/67] fix: ssl: leave the compression methods to OpenSSL 1.1
 or later, which frees them itself (crash at exit)

---
 include/cybozu/ssl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index 83cbf24..428209d 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -40,8 +40,10 @@ struct Engine {
 		ENGINE_cleanup();
 		ERR_free_strings();
 //		CONF_modules_unload(1); // openssl/conf.h
+#if OPENSSL_VERSION_NUMBER < 0x10100000L
 		/* this decreases one leak, but is this correct? */
 		OPENSSL_free(SSL_COMP_get_compression_methods());
+#endif
 	}
 	static Engine& getInstance()
 	{
-- 
2.43.0


From 542974ccf1eb7d2097ca2f49a998a5daee2e17a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:55 +0000
Subject: [PATCH 59/67] fix: ssl: close the socket when the handshake fails, so
 that connect can be tried again

---
 include/cybozu/ssl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index 428209d..487ce83 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -139,6 +139,7 @@ public:
 		return;
 	ERR_EXIT:
 		Engine::getInstance().putError();
+		soc_.close(cybozu::DontThrow);
 		throw cybozu::Exception("ssl:ClientSocket:connect");
 	}
 	size_t readSome(void *buf, size_t bufSize)
-- 
2.43.0


From 8ea076c4a84f87e5e0f3e76559c69de2c1e7338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:12 +0000
Subject: [PATCH 60/67] fix: ssl: read throws at the end of the stream instead
 of looping forever

---
 include/cybozu/ssl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index 487ce83..5bd46ae 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -159,6 +159,7 @@ public:
 		char *p = (char *)buf;
 		while (bufSize > 0) {
 			size_t readSize = readSome(p, bufSize);
+			if (readSize == 0) throw cybozu::Exception("ssl:ClientSocket:read:can't read") << bufSize;
 			p += readSize;
 			bufSize -= readSize;
 		}
-- 
2.43.0


From 41412b70e25d3fc27cd5e0634c579397075aa3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:40 +0000
Subject: [PATCH 61/67] fix: ssl: close does not throw when the peer has not
 yet closed (SSL_shutdown returns 0)

---
 include/cybozu/ssl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index 5bd46ae..dfd864d 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -184,7 +184,7 @@ public:
 	{
 		bool isOK = true;
 		if (soc_.isValid()) {
-			isOK = SSL_shutdown(ssl_) == 1;
+			isOK = SSL_shutdown(ssl_) >= 0; // 0 : close notify is sent
 			if (!isOK) {
 				Engine::getInstance().putError();
 			}
-- 
2.43.0


From e1abe603a34539a62b28f02d67ecd364ef195b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:10 +0000
Subject: [PATCH 62/67] fix: ssl: a new handshake when a closed socket is
 connected again

---
 include/cybozu/ssl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index dfd864d..25df321 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -132,7 +132,7 @@ public:
 			throw cybozu::Exception("ssl:ClientSocket:connect:large socket handle") << soc_.sd_;
 		}
 #endif
-		isOK = SSL_set_fd(ssl_, static_cast<int>(soc_.sd_)) != 0;
+		isOK = SSL_clear(ssl_) != 0 && SSL_set_fd(ssl_, static_cast<int>(soc_.sd_)) != 0; // ssl_ may have been used before
 		if (!isOK) goto ERR_EXIT;
 		isOK = SSL_connect(ssl_) == 1;
 		if (!isOK) goto ERR_EXIT;
-- 
2.43.0


From 328646a189ca4c321129727581d72b2730b1bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:06 +0000
Subject: [PATCH 63/67] fix: v128: shrBit and shlBit did not compile (no
 operator|)

---
 include/cybozu/v128.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/v128.hpp b/include/cybozu/v128.hpp
index d3d129e..67d1bf6 100644
--- a/include/cybozu/v128.hpp
+++ b/include/cybozu/v128.hpp
@@ -318,7 +318,7 @@ template<int n>
 inline void V128::shrBit()
 {
 	assert(n < 64);
-	*this = psrlq<n>(*this) | psllq<64 - n>(psrldq<8>(*this));
+	*this = por(psrlq<n>(*this), psllq<64 - n>(psrldq<8>(*this)));
 #if 0
 	if (n == 64) {
 		*this = psrldq<8>(*this);
@@ -332,7 +332,7 @@ template<int n>
 inline void V128::shlBit()
 {
 	assert(n < 64);
-	*this = psllq<n>(*this) | psrlq<64 - n>(pslldq<8>(*this));
+	*this = por(psllq<n>(*this), psrlq<64 - n>(pslldq<8>(*this)));
 #if 0
 	if (n == 64) {
 		*this = pslldq<8>(*this);
-- 
2.43.0


From 98fb7b8ea5d166237f2c94d9d976222a952c8aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:41 +0000
Subject: [PATCH 64/67] fix: tfidf.hpp did not compile without other headers
 before it

---
 include/cybozu/nlp/tfidf.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cybozu/nlp/tfidf.hpp b/include/cybozu/nlp/tfidf.hpp
index be31cfc..20e4375 100644
--- a/include/cybozu/nlp/tfidf.hpp
+++ b/include/cybozu/nlp/tfidf.hpp
@@ -8,7 +8,11 @@
 #include <set>
 #include <map>
 #include <string>
+#include <vector>
+#include <algorithm>
+#include <fstream>
 #include <stdio.h>
+#include <math.h>
 #include <cybozu/string_operation.hpp>
 #include <cybozu/nlp/sparse.hpp>
 
-- 
2.43.0


From e766f4f5e09f658f2dbadc89329108a76a73f812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:41 +0000
Subject: [PATCH 65/67] fix: quit_signal_handler.hpp did not compile without
 other headers before it

---
 include/cybozu/quit_signal_handler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/quit_signal_handler.hpp b/include/cybozu/quit_signal_handler.hpp
index 4ac2fea..f2e380a 100644
--- a/include/cybozu/quit_signal_handler.hpp
+++ b/include/cybozu/quit_signal_handler.hpp
@@ -15,6 +15,7 @@
 #endif
 #include <stdio.h>
 #include <stdlib.h>
+#include <cybozu/inttype.hpp>
 
 namespace cybozu {
 
-- 
2.43.0


From 5b4f873ba86eb81bf7c82761478e64b3befa8312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:59 +0000
Subject: [PATCH 66/67] fix: TfIdf::term went over the documents by the number
 of keywords

---
 include/cybozu/nlp/tfidf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/tfidf.hpp b/include/cybozu/nlp/tfidf.hpp
index 20e4375..87a575f 100644
--- a/include/cybozu/nlp/tfidf.hpp
+++ b/include/cybozu/nlp/tfidf.hpp
@@ -191,7 +191,7 @@ struct TfIdf {
 		for (size_t i = 0, n = df_.size(); i < n; i++) {
 			idf_[i] = logN - log(double(df_[i]));
 		}
-		for (size_t i = 0, n = df_.size(); i < n; i++) {
+		for (size_t i = 0, n = tf_.size(); i < n; i++) {
 			const Int2Int& iv = tf_[i];
 			DoubleSvec v;
 			for (Int2Int::const_iterator j = iv.begin(), je = iv.end(); j != je; ++j) {
-- 
2.43.0


From 7a1593dcd095675926b5e2a69ea05f6452a5b61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:09 +0000
Subject: [PATCH 67/67] fix: Df counted a document once per spelling of a word

---
 include/cybozu/nlp/tfidf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/nlp/tfidf.hpp b/include/cybozu/nlp/tfidf.hpp
index 87a575f..824bf2e 100644
--- a/include/cybozu/nlp/tfidf.hpp
+++ b/include/cybozu/nlp/tfidf.hpp
@@ -78,7 +78,7 @@ struct Df {
 			id2word_.push_back(lower);
 			df_.resize(id2word_.size());
 		}
-		if (set_.insert(word).second) {
+		if (set_.insert(lower).second) {
 			df_[ret.first->second]++;
 		}
 	}
-- 
2.43.0

