------------------------------- MODULE Words -------------------------------
(* 32 and 64 bit words as little-endian tuples of two or four 16 bit limbs.   *)
EXTENDS Bytes, Bitwise
WXor(a, b) == IF Len(a) = 2 THEN <<a[1] ^^ b[1], a[2] ^^ b[2]>> ELSE <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
WAnd(a, b) == IF Len(a) = 2 THEN <<a[1] & b[1], a[2] & b[2]>> ELSE <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
WAdd(a, b) ==
  LET x1 == a[1] + b[1] x2 == a[2] + b[2] + (x1 \div 65536) IN
  IF Len(a) = 2 THEN <<x1 % 65536, x2 % 65536>>
  ELSE LET x3 == a[3] + b[3] + (x2 \div 65536) x4 == a[4] + b[4] + (x3 \div 65536) IN <<x1 % 65536, x2 % 65536, x3 % 65536, x4 % 65536>>
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
\* limb i (0-based) of a rotated right by 16 q + s
RL(a, i, q, s) == LET n == Len(a) lo == a[((i + q) % n) + 1] hi == a[((i + q + 1) % n) + 1] IN
  (lo \div P2[s + 1]) + ((hi % P2[s + 1]) * P2[17 - s])
Rotr(a, r) == LET q == r \div 16 s == r % 16 IN
  IF Len(a) = 2 THEN <<RL(a, 0, q, s), RL(a, 1, q, s)>> ELSE <<RL(a, 0, q, s), RL(a, 1, q, s), RL(a, 2, q, s), RL(a, 3, q, s)>>
Rotl(a, r) == Rotr(a, 16 * Len(a) - r)
\* shift right by s < 16
Shr(a, s) == IF Len(a) = 2 THEN <<RL(a, 0, 0, s), a[2] \div P2[s + 1]>> ELSE <<RL(a, 0, 0, s), RL(a, 1, 0, s), RL(a, 2, 0, s), a[4] \div P2[s + 1]>>
\* shift left by s < 16, the overflow is lost
Shl(a, s) == LET L(i) == ((a[i] * P2[s + 1]) % 65536) + (IF i = 1 THEN 0 ELSE a[i - 1] \div P2[17 - s]) IN
  IF Len(a) = 2 THEN <<((a[1] % P2[17 - s]) * P2[s + 1]), (a[2] % P2[17 - s]) * P2[s + 1] + (a[1] \div P2[17 - s])>>
  ELSE <<((a[1] % P2[17 - s]) * P2[s + 1]), (a[2] % P2[17 - s]) * P2[s + 1] + (a[1] \div P2[17 - s]),
         (a[3] % P2[17 - s]) * P2[s + 1] + (a[2] \div P2[17 - s]), (a[4] % P2[17 - s]) * P2[s + 1] + (a[3] \div P2[17 - s])>>
\* from bytes at 1-based position p
BE(s, p, n) == IF n = 2 THEN <<s[p + 2] * 256 + s[p + 3], s[p] * 256 + s[p + 1]>>
               ELSE <<s[p + 6] * 256 + s[p + 7], s[p + 4] * 256 + s[p + 5], s[p + 2] * 256 + s[p + 3], s[p] * 256 + s[p + 1]>>
LE64(s, p) == <<s[p] + 256 * s[p + 1], s[p + 2] + 256 * s[p + 3], s[p + 4] + 256 * s[p + 5], s[p + 6] + 256 * s[p + 7]>>
BEBytes(w) == IF Len(w) = 2 THEN <<w[2] \div 256, w[2] % 256, w[1] \div 256, w[1] % 256>>
              ELSE <<w[4] \div 256, w[4] % 256, w[3] \div 256, w[3] % 256, w[2] \div 256, w[2] % 256, w[1] \div 256, w[1] % 256>>
Zeros(n) == [i \in 1 .. n |-> 0]
=============================================================================
