---------------------------- MODULE RankSelectMC ----------------------------
(* The block directory (a count per block of B bits, a sampled table for      *)
(* select, binary search over block counts) answers as counting does, for     *)
(* every bit sequence up to N bits. The sequences are printed for replay;     *)
(* the driver stretches every model bit to a run so that model blocks become  *)
(* real words, sub-blocks and blocks.                                         *)
EXTENDS RankSelect, TLC
CONSTANTS N, B, U          \* U: sampling unit of the select table
VARIABLE bits
Init == bits = <<>>
Next == Len(bits) < N /\ \E b \in {0, 1} : bits' = Append(bits, b)
Rank(b, p) == Count(SubSeq(bits, 1, p), b)
NB == (Len(bits) + B - 1) \div B
\* directory: ones before each block; zeros derived (a partial last block is padded with zeros)
Ones(i) == Rank(1, Min2(i * B, Len(bits)))
BlkCount(b, i) == IF b = 1 THEN Ones(i) ELSE i * B - Ones(i)
Total(b) == IF b = 1 THEN Ones(NB) ELSE Len(bits) - Ones(NB)
DirRank1(p) == LET q == p \div B IN IF p >= Len(bits) THEN Total(1) ELSE Ones(q) + Count(SubSeq(bits, q * B + 1, p), 1)
\* select table entry j: first block with at least j*U before it
Tbl(b, j) == CHOOSE x \in 0 .. NB : /\ (x = NB \/ BlkCount(b, x) >= j * U)
                                    /\ \A y \in 0 .. x - 1 : BlkCount(b, y) < j * U
RECURSIVE BinSearch(_, _, _, _)
BinSearch(b, lo, hi, r) == IF lo >= hi THEN lo
   ELSE LET m == (lo + hi) \div 2 IN IF BlkCount(b, m) < r THEN BinSearch(b, m + 1, hi, r) ELSE BinSearch(b, lo, m, r)
TblSize(b) == (Total(b) + U - 1) \div U
DirSelect(b, k) ==
  IF k >= Total(b) THEN -1
  ELSE LET j == k \div U
           lo == Tbl(b, j)
           hi == IF j >= TblSize(b) - 1 THEN NB ELSE Tbl(b, j + 1)
           x == BinSearch(b, lo, hi, k + 1)
           L == IF x > 0 THEN x - 1 ELSE 0
           need == k + 1 - BlkCount(b, L)
           blk == [t \in 1 .. B |-> IF L * B + t <= Len(bits) THEN bits[L * B + t] ELSE 0]
       IN L * B + (CHOOSE t \in 1 .. B : blk[t] = b /\ Count(SubSeq(blk, 1, t), b) = need) - 1
RankOk == \A p \in 0 .. Len(bits) : DirRank1(p) = Rank(1, p)
SelOk == \A b \in {0, 1} : \A k \in 0 .. Len(bits) :
           DirSelect(b, k) = (IF k < Rank(b, Len(bits)) THEN CHOOSE p \in 0 .. Len(bits) - 1 : bits[p + 1] = b /\ Rank(b, p) = k ELSE -1)
Emit == PrintT(<<"GEN", <<Len(bits)>> \o bits>>)
=============================================================================
