--------------------------------- MODULE Num ---------------------------------
(* Unbounded naturals as sequences: digits are most significant first; words  *)
(* are little-endian sequences of four 16-bit limbs (TLC integers have 32     *)
(* bits).                                                                     *)
EXTENDS Bytes
RECURSIVE StripZeros(_)
StripZeros(ds) == IF ds # <<>> /\ ds[1] = 0 THEN StripZeros(Tail(ds)) ELSE ds
\* compare canonical digit sequences
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLe(Tail(a), Tail(b))
DigLe(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLe(a, b))
\* word * base + d, base <= 16 ; overflow of the word is lost (callers check the range by digits)
MulAdd(w, base, d) ==
  LET a1 == w[1] * base + d
      a2 == w[2] * base + (a1 \div 65536)
      a3 == w[3] * base + (a2 \div 65536)
      a4 == w[4] * base + (a3 \div 65536)
  IN <<a1 % 65536, a2 % 65536, a3 % 65536, a4 % 65536>>
RECURSIVE ToWord(_, _, _)
ToWord(ds, base, acc) == IF ds = <<>> THEN acc ELSE ToWord(Tail(ds), base, MulAdd(acc, base, ds[1]))
W0 == <<0, 0, 0, 0>>
\* division by base: <<quotient word, remainder>>
DivMod(w, base) ==
  LET q4 == w[4] \div base r4 == w[4] % base
      t3 == r4 * 65536 + w[3] q3 == t3 \div base r3 == t3 % base
      t2 == r3 * 65536 + w[2] q2 == t2 \div base r2 == t2 % base
      t1 == r2 * 65536 + w[1] q1 == t1 \div base r1 == t1 % base
  IN <<<<q1, q2, q3, q4>>, r1>>
\* canonical digits of a word ("0" for zero)
RECURSIVE Digits(_, _)
Digits(w, base) == LET qr == DivMod(w, base) IN
  IF qr[1] = W0 THEN <<qr[2]>> ELSE Append(Digits(qr[1], base), qr[2])
Dec(s) == [i \in 1 .. Len(s) |-> s[i] - 48]
\* largest magnitudes per width
UMax(bits) == CASE bits = 8 -> <<2,5,5>> [] bits = 16 -> <<6,5,5,3,5>> [] bits = 32 -> <<4,2,9,4,9,6,7,2,9,5>>
                [] bits = 64 -> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
SMax(bits) == CASE bits = 8 -> <<1,2,7>> [] bits = 16 -> <<3,2,7,6,7>> [] bits = 32 -> <<2,1,4,7,4,8,3,6,4,7>>
                [] bits = 64 -> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
SMin(bits) == [SMax(bits) EXCEPT ![Len(SMax(bits))] = @ + 1]
=============================================================================
