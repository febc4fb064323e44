------------------------------ MODULE V128MC --------------------------------
(* Laws between the operations on words made of boundary lanes, and of hash   *)
(* values; the words are replayed through the code.                           *)
EXTENDS V128, TLC
CONSTANTS Ns
VARIABLES p
LaneVals == <<<<0, 0>>, <<1, 0>>, <<65535, 32767>>, <<0, 32768>>, <<65535, 65535>>, <<513, 1027>>>>
Wd(x, y) == Bytes4(LaneVals[x]) \o Bytes4(LaneVals[y]) \o Bytes4(LaneVals[(x % 6) + 1]) \o Bytes4(LaneVals[x])
Init == p \in (1 .. 6) \X (1 .. 6) \X (1 .. 6) \X Ns
Next == FALSE /\ p' = p
A == Wd(p[1], p[2])
B == Wd(p[3], p[1])
N == p[4]
F(f) == Val(f, A, B, N)
Shift == (N < 64) => /\ F("shrBit") = Val("por", F("psrlq"), Val("psllq", Val("psrldq", A, B, 8), B, 64 - N), 0)
                     /\ F("shlBit") = Val("por", F("psllq"), Val("psrlq", Val("pslldq", A, B, 8), B, 64 - N), 0)
Rotate == LET r == Rot(A, B, A, N % 17) IN Rot(r[1], r[2], r[3], 48 - (N % 17)) = <<A, B, A>> /\ r[1] = Val("palignr", B, A, N % 17)
AddSub == Val("psubd", F("paddd"), B, 0) = A /\ F("paddd") = Val("paddd", B, A, 0)
MinMax == /\ Val("paddd", F("pmaxsd"), F("pminsd"), 0) = F("paddd") /\ Val("paddd", F("pmaxud"), F("pminud"), 0) = F("paddd")
          /\ Val("por", Val("por", F("pcmpgtd"), F("pcmpeqd"), 0), Val("pcmpgtd", B, A, 0), 0) = [k \in V |-> 255]
Logic == /\ Val("pxor", F("pand"), F("por"), 0) = F("pxor") /\ Val("por", F("pandn"), F("pand"), 0) = B
         /\ Num("ptest_zf", A, B, 0) = (IF F("pand") = Zero16 THEN 1 ELSE 0)
Shuffle == Val("pshufd", A, B, 228) = A /\ Val("pshufb", A, [k \in V |-> k - 1], 0) = A /\ Val("palignr", A, B, 0) = B /\ Val("palignr", A, B, 16) = A
Piece == LET l == <<D(A, 0) \o D(A, 1), D(B, 1) \o D(B, 2), D(A, 3) \o D(B, 0)>> IN \A k \in 0 .. 3 : Hash32(SubSeq(l, k + 1, 3), 1, Hash32(SubSeq(l, 1, k), 1, Basis32)) = Hash32(l, 1, Basis32)
Emit == PrintT(<<"GEN", p>>)
=============================================================================
