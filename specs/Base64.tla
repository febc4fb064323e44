-------------------------------- MODULE Base64 --------------------------------
(* P05: RFC 4648 as arithmetic on bit positions.                              *)
EXTENDS Bytes
LF == 10
CR == 13
Pad == 61
Pow2(n) == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>[n + 1]
Letter(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 97 + v - 26 ELSE IF v < 62 THEN 48 + v - 52 ELSE IF v = 62 THEN 43 ELSE 47
IsLetter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ (c >= 48 /\ c <= 57) \/ c = 43 \/ c = 47
Value(c) == IF c >= 97 THEN c - 97 + 26 ELSE IF c >= 65 THEN c - 65 ELSE IF c >= 48 THEN c - 48 + 52 ELSE IF c = 43 THEN 62 ELSE 63
\* sextet k (0-based) of a byte string, missing bits zero
Sextet(b, k) ==
  LET i == (6 * k) \div 8        \* byte it starts in (0-based)
      o == (6 * k) % 8           \* bit offset from the top
      x == b[i + 1]
      y == IF i + 2 <= Len(b) THEN b[i + 2] ELSE 0
      w == x * 256 + y
  IN (w \div (IF o = 0 THEN 1024 ELSE IF o = 2 THEN 256 ELSE IF o = 4 THEN 64 ELSE 16)) % 64
EncSextets(b) == (8 * Len(b) + 5) \div 6
PlainText(b) ==
  LET n == EncSextets(b)
      total == 4 * ((Len(b) + 2) \div 3)
  IN [k \in 1 .. total |-> IF k <= n THEN Letter(Sextet(b, k - 1)) ELSE Pad]
EndLine(mode) == CASE mode = 0 -> <<LF>> [] mode = 1 -> <<CR, LF>> [] mode = 2 -> <<>>
EncText(b, max, mode) ==
  LET t == PlainText(b)
      n == IF max = 0 THEN 1 ELSE (Len(t) + max - 1) \div max
  IN IF max = 0 THEN t
     ELSE Concat([k \in 1 .. n |-> SubSeq(t, (k - 1) * max + 1, Min2(k * max, Len(t))) \o EndLine(mode)])
ValidLine(max) == max % 4 = 0 /\ max <= 128
\* decoding: characters outside the alphabet do not count
Sextets(t) == LET f == SelectSeq(t, IsLetter) IN [k \in 1 .. Len(f) |-> Value(f[k])]
DecBytes(v) ==
  [k \in 1 .. (6 * Len(v)) \div 8 |->
     LET o == 8 * (k - 1)
         i == o \div 6
         s == o % 6             \* 0, 2, 4
         w == v[i + 1] * 64 + v[i + 2]
     IN (w \div Pow2(4 - s)) % 256]
Decode(t) == DecBytes(Sextets(t))
----------------------------------------------------------------------------
InitB64 == [v |-> <<>>]
Step(S, e) ==
  CASE e.op = "enc" ->
         IF ValidLine(e.max) THEN IF ~e.thrown /\ e.out = EncText(e.in, e.max, e.mode) THEN {S} ELSE {}
         ELSE IF e.thrown THEN {S} ELSE {}
    [] e.op = "dec" -> IF e.out = Decode(e.in) THEN {S} ELSE {}
    [] e.op = "back" -> IF e.out = e.orig THEN {S} ELSE {}          \* decoded text of an encoding
    [] e.op = "feed" -> IF e.ret = Len(e.s) THEN {[S EXCEPT !.v = @ \o Sextets(e.s)]} ELSE {}
    [] e.op = "flush" -> IF e.out = DecBytes(S.v) THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
