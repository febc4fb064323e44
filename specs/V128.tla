-------------------------------- MODULE V128 --------------------------------
(* P41: 128 bit words as 16 bytes (first: lowest), and hash values.           *)
EXTENDS Words
V == 1 .. 16
Bit(a, k) == (a[(k \div 8) + 1] \div P2[(k % 8) + 1]) % 2
RECURSIVE ByteOf(_, _)
ByteOf(f, k) == LET g(j) == f[8 * (k - 1) + j] * P2[j + 1] IN g(0) + g(1) + g(2) + g(3) + g(4) + g(5) + g(6) + g(7)
FromBits(f) == [k \in V |-> ByteOf(f, k)] \* f: 0 .. 127 -> 0 .. 1
Zero16 == [k \in V |-> 0]
\* lanes of w bits: bit k moves by n towards the low end, nothing crosses a lane
LaneShr(a, w, n) == FromBits([k \in 0 .. 127 |-> IF (k % w) + n < w THEN Bit(a, k + n) ELSE 0])
LaneShl(a, w, n) == FromBits([k \in 0 .. 127 |-> IF (k % w) >= n THEN Bit(a, k - n) ELSE 0])
D(a, i) == <<a[4 * i + 1] + 256 * a[4 * i + 2], a[4 * i + 3] + 256 * a[4 * i + 4]>> \* 32 bit lane i
Bytes4(d) == <<d[1] % 256, d[1] \div 256, d[2] % 256, d[2] \div 256>>
FromD(f) == Bytes4(f[0]) \o Bytes4(f[1]) \o Bytes4(f[2]) \o Bytes4(f[3])
Lanes(g(_)) == FromD([i \in 0 .. 3 |-> g(i)])
ULt(x, y) == x[2] < y[2] \/ (x[2] = y[2] /\ x[1] < y[1])
Flip(x) == <<x[1], (x[2] + 32768) % 65536>>
SLt(x, y) == ULt(Flip(x), Flip(y))
Neg32(x) == WAdd(<<65535 - x[1], 65535 - x[2]>>, <<1, 0>>)
All1 == <<65535, 65535>>
Map2(a, b, g(_, _)) == [k \in V |-> g(a[k], b[k])]
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sad(_, _, _, _)
Sad(a, b, k, n) == IF n = 0 THEN 0 ELSE Abs(a[k] - b[k]) + Sad(a, b, k + 1, n - 1)
Lane64(x) == <<x % 256, x \div 256, 0, 0, 0, 0, 0, 0>>
Cat32(a, b) == b \o a \* a above b
Right(a, b, n) == [k \in V |-> IF k + n <= 32 THEN Cat32(a, b)[k + n] ELSE 0]
RECURSIVE Mask(_, _)
Mask(a, k) == IF k > 16 THEN 0 ELSE (a[k] \div 128) * (IF k = 16 THEN 32768 ELSE P2[k]) + Mask(a, k + 1)
\* result of the operation f on words a, b and number n
Val(f, a, b, n) ==
  CASE f = "psrldq" -> [k \in V |-> IF k + n <= 16 THEN a[k + n] ELSE 0]
    [] f = "pslldq" -> [k \in V |-> IF k > n THEN a[k - n] ELSE 0]
    [] f = "psrlq" -> LaneShr(a, 64, n)
    [] f = "psllq" -> LaneShl(a, 64, n)
    [] f = "shrBit" -> LaneShr(a, 128, n)
    [] f = "shlBit" -> LaneShl(a, 128, n)
    [] f = "palignr" -> Right(a, b, n)
    [] f \in {"punpckldq", "unpcklps"} -> Lanes(LAMBDA i : D(IF i % 2 = 0 THEN a ELSE b, i \div 2))
    [] f \in {"punpckhdq", "unpckhps"} -> Lanes(LAMBDA i : D(IF i % 2 = 0 THEN a ELSE b, 2 + (i \div 2)))
    [] f = "punpcklqdq" -> SubSeq(a, 1, 8) \o SubSeq(b, 1, 8)
    [] f = "punpckhqdq" -> SubSeq(a, 9, 16) \o SubSeq(b, 9, 16)
    [] f = "paddd" -> Lanes(LAMBDA i : WAdd(D(a, i), D(b, i)))
    [] f = "psubd" -> Lanes(LAMBDA i : WAdd(D(a, i), Neg32(D(b, i))))
    [] f = "pand" -> Map2(a, b, LAMBDA x, y : x & y)
    [] f = "por" -> Map2(a, b, LAMBDA x, y : x | y)
    [] f = "pxor" -> Map2(a, b, LAMBDA x, y : x ^^ y)
    [] f = "pandn" -> Map2(a, b, LAMBDA x, y : (255 - x) & y)
    [] f = "pmaxsd" -> Lanes(LAMBDA i : IF SLt(D(a, i), D(b, i)) THEN D(b, i) ELSE D(a, i))
    [] f = "pminsd" -> Lanes(LAMBDA i : IF SLt(D(a, i), D(b, i)) THEN D(a, i) ELSE D(b, i))
    [] f = "pmaxud" -> Lanes(LAMBDA i : IF ULt(D(a, i), D(b, i)) THEN D(b, i) ELSE D(a, i))
    [] f = "pminud" -> Lanes(LAMBDA i : IF ULt(D(a, i), D(b, i)) THEN D(a, i) ELSE D(b, i))
    [] f = "pcmpeqd" -> Lanes(LAMBDA i : IF D(a, i) = D(b, i) THEN All1 ELSE <<0, 0>>)
    [] f = "pcmpgtd" -> Lanes(LAMBDA i : IF SLt(D(b, i), D(a, i)) THEN All1 ELSE <<0, 0>>)
    [] f = "pshufb" -> [k \in V |-> IF b[k] >= 128 THEN 0 ELSE a[(b[k] % 16) + 1]]
    [] f = "pshufd" -> Lanes(LAMBDA i : D(a, (n \div P2[2 * i + 1]) % 4))
    [] f = "pinsrd" -> Lanes(LAMBDA i : IF i = n THEN D(b, 0) ELSE D(a, i))
    [] f = "pinsrb" -> [k \in V |-> IF k = n + 1 THEN b[1] ELSE a[k]]
    [] f = "psadbw" -> Lane64(Sad(a, b, 1, 8)) \o Lane64(Sad(a, b, 9, 8))
    [] f = "clear" -> Zero16
    [] f = "same" -> a
    [] f = "first32" -> SubSeq(a, 1, 4) \o [k \in 1 .. 12 |-> 0]
    [] f = "first64" -> SubSeq(a, 1, 8) \o [k \in 1 .. 8 |-> 0]
    [] f = "all32" -> Lanes(LAMBDA i : D(a, 0))
\* operations that yield a number
Num(f, a, b, n) ==
  CASE f = "pmovmskb" -> Mask(a, 1)
    [] f = "ptest_zf" -> IF Val("pand", a, b, 0) = Zero16 THEN 1 ELSE 0
    [] f = "ptest_cf" -> IF Val("pandn", a, b, 0) = Zero16 THEN 1 ELSE 0
Wide(f, a, n) == CASE f = "pextrd" -> D(a, n) [] f = "movd" -> D(a, 0) [] f = "movq" -> D(a, 0) \o D(a, 1)
\* three words in a row, c above b above a, rotated by n bytes towards the low end
Rot(a, b, c, n) == LET w == a \o b \o c r == [k \in 1 .. 48 |-> w[((k - 1 + n) % 48) + 1]] IN <<SubSeq(r, 1, 16), SubSeq(r, 17, 32), SubSeq(r, 33, 48)>>
\* hash values: FNV-1a over the elements, each taken as a word of the hash's width
Mul32(v) == LET p == v[1] * 403 IN <<p % 65536, ((p \div 65536) + v[1] * 256 + v[2] * 403) % 65536>>
Mul64(v) == LET p == v[1] * 435 q == (p \div 65536) + v[2] * 435 r == (q \div 65536) + v[3] * 435 + v[1] * 256 s == (r \div 65536) + v[4] * 435 + v[2] * 256 IN <<p % 65536, q % 65536, r % 65536, s % 65536>>
RECURSIVE Hash32(_, _, _)
Hash32(l, k, v) == IF k > Len(l) THEN v ELSE Hash32(l, k + 1, Mul32(WXor(v, SubSeq(l[k], 1, 2))))
RECURSIVE Hash64(_, _, _)
Hash64(l, k, v) == IF k > Len(l) THEN <<v[1] ^^ v[3], v[2] ^^ v[4], v[3], v[4]>> ELSE Hash64(l, k + 1, Mul64(WXor(v, l[k])))
Basis32 == <<40389, 33052>>
Basis64 == <<8997, 33826, 40164, 52210>>
Step(S, e) ==
  CASE e.op = "v" -> IF e.r = Val(e.f, e.a, e.b, e.n) THEN {S} ELSE {}
    [] e.op = "n" -> IF e.r = Num(e.f, e.a, e.b, e.n) THEN {S} ELSE {}
    [] e.op = "w" -> IF e.r = Wide(e.f, e.a, e.n) THEN {S} ELSE {}
    [] e.op = "rot" -> IF e.r = Rot(e.a, e.b, e.c, IF e.left THEN 48 - e.n ELSE e.n) THEN {S} ELSE {}
    [] e.op = "swap" -> IF e.a2 = e.b /\ e.b2 = (IF e.copy THEN e.b ELSE e.a) THEN {S} ELSE {}
    [] e.op = "h32" -> IF e.r = Hash32(e.l, 1, IF e.v = <<0, 0>> THEN Basis32 ELSE e.v) THEN {S} ELSE {}
    [] e.op = "h64" -> IF e.r = Hash64(e.l, 1, IF e.v = <<0, 0, 0, 0>> THEN Basis64 ELSE e.v) THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
