------------------------------- MODULE Endian -------------------------------
(* P13: byte order of words in memory, and bit primitives. Words are given as *)
(* little-endian sequences of 16-bit limbs.                                   *)
EXTENDS Num
Bits(w) == [b \in 1 .. 16 * Len(w) |-> (w[(b - 1) \div 16 + 1] \div 2^((b - 1) % 16)) % 2]   \* index 1 = least significant
LEBytes(w) == [k \in 1 .. 2 * Len(w) |-> IF k % 2 = 1 THEN w[(k + 1) \div 2] % 256 ELSE w[k \div 2] \div 256]
Rev(s) == [k \in 1 .. Len(s) |-> s[Len(s) + 1 - k]]
BytesOf(w, be) == IF be THEN Rev(LEBytes(w)) ELSE LEBytes(w)
Step(S, e) ==
  CASE e.op = "set" ->   \* mem before, offset, word, mem after
         IF e.after = SubSeq(e.before, 1, e.off) \o BytesOf(e.w, e.be) \o SubSeq(e.before, e.off + 2 * Len(e.w) + 1, Len(e.before)) THEN {S} ELSE {}
    [] e.op = "get" -> IF BytesOf(e.w, e.be) = e.bytes THEN {S} ELSE {}
    [] e.op = "swap" -> IF LEBytes(e.r) = Rev(LEBytes(e.w)) THEN {S} ELSE {}
    [] e.op = "bsf" -> LET b == Bits(e.w) IN IF b[e.r + 1] = 1 /\ \A k \in 1 .. e.r : b[k] = 0 THEN {S} ELSE {}
    [] e.op = "bsr" -> LET b == Bits(e.w) IN IF b[e.r + 1] = 1 /\ \A k \in e.r + 2 .. Len(b) : b[k] = 0 THEN {S} ELSE {}
    [] e.op = "popcnt" -> LET b == Bits(e.w) IN IF e.r = Len(SelectSeq(b, LAMBDA x : x = 1)) THEN {S} ELSE {}
    [] e.op = "mask" -> LET b == Bits(e.r) IN IF \A k \in 1 .. 64 : b[k] = (IF k <= e.n THEN 1 ELSE 0) THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
