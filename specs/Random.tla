------------------------------- MODULE Random -------------------------------
(* P32: the generators as published (state words as 16 bit limbs), drawing    *)
(* from them, and shuffling.                                                  *)
EXTENDS Words, FiniteSets
ShrN(a, n) == LET q == n \div 16 k == Len(a) b == [i \in 1 .. k |-> IF i + q <= k THEN a[i + q] ELSE 0] IN Shr(b, n % 16)
ShlN(a, n) == LET q == n \div 16 k == Len(a) b == [i \in 1 .. k |-> IF i > q THEN a[i - q] ELSE 0] IN Shl(b, n % 16)
Low(w) == <<w[1], w[2]>>
\* 64 bit product: limb products split into bytes so that nothing exceeds 31 bits
RECURSIVE WMulSmall(_, _)
WMulSmall(w, d) == LET x1 == w[1] * d x2 == w[2] * d + x1 \div 65536 x3 == w[3] * d + x2 \div 65536 x4 == w[4] * d + x3 \div 65536 IN <<x1 % 65536, x2 % 65536, x3 % 65536, x4 % 65536>>
RECURSIVE WMul8(_, _)
WMul8(w, bs) == IF bs = <<>> THEN <<0, 0, 0, 0>> ELSE WAdd(ShlN(WMul8(w, Tail(bs)), 8), WMulSmall(w, Head(bs)))   \* bs: bytes, least first
\* --- xorshift, four 32 bit words
XsSeed(x, d) == IF x = <<0, 0>> THEN d ELSE x
XsInit(v) == <<XsSeed(v[1], <<52501, 1883>>), XsSeed(v[2], <<21989, 5530>>), XsSeed(v[3], <<15285, 7954>>), XsSeed(v[4], <<4915, 1353>>)>>
XsNext(s) == LET t == WXor(s[1], ShlN(s[1], 11)) w == WXor(WXor(s[4], ShrN(s[4], 19)), WXor(t, ShrN(t, 8))) IN [st |-> <<s[2], s[3], s[4], w>>, out |-> w]
\* --- xorshift128+, two 64 bit words
XpNext(s) == LET s1 == WXor(s[1], ShlN(s[1], 23)) s0 == s[2] n == WXor(WXor(s1, s0), WXor(ShrN(s1, 18), ShrN(s0, 5))) IN [st |-> <<s0, n>>, out |-> WAdd(n, s0)]
\* --- xoroshiro128+
XoNext(s) == LET x == WXor(s[1], s[2]) IN [st |-> <<WXor(WXor(Rotl(s[1], 55), x), ShlN(x, 14)), Rotl(x, 36)>>, out |-> WAdd(s[1], s[2])]
\* --- PCG, one 64 bit word; the multiplier is 6364136223846793005
PcgMul == <<45, 127, 149, 76, 45, 244, 81, 88>>
PcgNext(s) == LET o == s[1] x == Low(ShrN(WXor(ShrN(o, 18), o), 27)) r == o[4] \div 2048 IN [st |-> <<WAdd(WMul8(o, PcgMul), <<109, 0, 0, 0>>)>>, out |-> Rotr(x, r)]
Native(k, s) == CASE k = "xs" -> XsNext(s) [] k = "xp" -> XpNext(s) [] k = "xo" -> XoNext(s) [] k = "pcg" -> PcgNext(s)
Is32(k) == k \in {"xs", "pcg"}
Seeded(k, v) == IF k = "xs" THEN XsInit(v) ELSE v
Get32(k, s) == LET n == Native(k, s) IN [st |-> n.st, out |-> Low(n.out)]
Get64(k, s) == LET n == Native(k, s) IN IF ~Is32(k) THEN n ELSE LET m == Native(k, n.st) IN [st |-> m.st, out |-> m.out \o n.out]
LEB(w) == Concat([i \in 1 .. Len(w) |-> <<w[i] % 256, w[i] \div 256>>])
\* n bytes: whole words in memory order, the rest of the last one is dropped
RECURSIVE Draw(_, _, _)
Draw(k, s, n) == IF n = 0 THEN [st |-> s, out |-> <<>>] ELSE
  LET w == Native(k, s) b == IF k = "pcg" THEN <<LEB(w.out)[1]>> ELSE LEB(w.out) IN
  IF Len(b) >= n THEN [st |-> w.st, out |-> SubSeq(b, 1, n)] ELSE LET r == Draw(k, w.st, n - Len(b)) IN [st |-> r.st, out |-> b \o r.out]
RECURSIVE Draw64(_, _, _)
Draw64(k, s, n) == IF n = 0 THEN [st |-> s, out |-> <<>>] ELSE LET w == Get64(k, s) r == Draw64(k, w.st, n - 1) IN [st |-> r.st, out |-> LEB(w.out) \o r.out]
RECURSIVE Draw32(_, _, _)
Draw32(k, s, n) == IF n = 0 THEN [st |-> s, out |-> <<>>] ELSE LET w == Get32(k, s) r == Draw32(k, w.st, n - 1) IN [st |-> r.st, out |-> LEB(w.out) \o r.out]
\* a double in [0, 1): 27 and 26 bits of two draws, as a 53 bit number
Frac(s) == LET a == XsNext(s) b == XsNext(a.st) x == ShrN(a.out, 5) y == ShrN(b.out, 6) IN [st |-> b.st, out |-> WAdd(ShlN(x \o <<0, 0>>, 26), y \o <<0, 0>>)]
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN [st |-> s, out |-> <<0, 0, 0, 0>>] ELSE LET f == Frac(s) r == Sum(f.st, n - 1) IN [st |-> r.st, out |-> WAdd(f.out, r.out)]
Occ(s, x) == Cardinality({i \in 1 .. Len(s) : s[i] = x})
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
\* state: generators by number
Put(S, g, x) == [S EXCEPT ![g] = x]
Step(S, e) ==
  CASE e.op = "seed" -> {Put(S, e.g, [k |-> e.k, st |-> Seeded(e.k, e.v)])}
    [] e.op = "copy" -> {Put(S, e.g, S[e.h])}
    [] e.op = "get32" -> LET n == Get32(S[e.g].k, S[e.g].st) IN IF e.r = n.out THEN {Put(S, e.g, [k |-> S[e.g].k, st |-> n.st])} ELSE {}
    [] e.op = "get64" -> LET n == Get64(S[e.g].k, S[e.g].st) IN IF e.r = n.out THEN {Put(S, e.g, [k |-> S[e.g].k, st |-> n.st])} ELSE {}
    [] e.op = "call" -> LET n == Native(S[e.g].k, S[e.g].st) IN IF e.r = n.out THEN {Put(S, e.g, [k |-> S[e.g].k, st |-> n.st])} ELSE {}
    [] e.op = "bytes" -> \* u: element size
         LET k == S[e.g].k n == IF k = "pcg" /\ e.u = 4 THEN Draw32(k, S[e.g].st, Len(e.r) \div 4) ELSE IF k = "pcg" /\ e.u = 8 THEN Draw64(k, S[e.g].st, Len(e.r) \div 8) ELSE Draw(k, S[e.g].st, Len(e.r)) IN
         IF e.r = n.out /\ e.ok THEN {Put(S, e.g, [k |-> k, st |-> n.st])} ELSE {}
    [] e.op = "frac" -> LET n == Frac(S[e.g].st) IN IF e.r = n.out THEN {Put(S, e.g, [k |-> S[e.g].k, st |-> n.st])} ELSE {}
    [] e.op = "range" -> LET n == Frac(S[e.g].st) IN IF e.in THEN {Put(S, e.g, [k |-> S[e.g].k, st |-> n.st])} ELSE {}
    [] e.op = "norm" -> \* r: the draw in units of 2^-16, of mean 0 and deviation 1
         LET n == Sum(S[e.g].st, 12) v == ShrN(n.out, 37) w == v[1] + 65536 * v[2] - 393216 IN IF e.r \in w - 2 .. w + 2 THEN {Put(S, e.g, [k |-> S[e.g].k, st |-> n.st])} ELSE {}
    [] e.op = "shuf" -> IF Len(e.out) = Len(e.in) /\ \A i \in 1 .. Len(e.in) : Occ(e.out, e.in[i]) = Occ(e.in, e.in[i]) THEN {S} ELSE {}
    [] e.op = "shufall" -> IF Len(e.c) = Fact(e.n) /\ \A i \in 1 .. Len(e.c) : e.c[i] = e.c[1] THEN {S} ELSE {}
    [] e.op = "source" -> {[S EXCEPT ![e.g] = [k |-> "src", src |-> e.src, p |-> 0, ok |-> e.ok]]}    \* the system's random source: so many bytes, or not there
    [] e.op = "sys" -> \* n bytes from the system's source: each byte is used once, in order; lack of bytes is reported
         LET s == S[e.g] IN
         IF e.ok THEN (IF Len(e.r) = e.n THEN {Put(S, e.g, [s EXCEPT !.p = q + e.n]) : q \in {q \in s.p .. Len(s.src) - e.n : SubSeq(s.src, q + 1, q + e.n) = e.r}} ELSE {})
         ELSE IF s.p + e.n > Len(s.src) \/ ~s.ok THEN {Put(S, e.g, [s EXCEPT !.p = Len(s.src)])} ELSE {}
    [] e.op = "nosrc" -> IF e.thrown THEN {S} ELSE {}
    [] e.op = "huge" -> IF e.over = FALSE THEN {S} ELSE {}    \* a request of 2^31 bytes and more stays within the buffer
    [] OTHER -> {}
=============================================================================
