------------------------------ MODULE WaveletMC ------------------------------
(* The matrix of bit levels (each level stably partitions the previous one)   *)
(* answers get, rank, rankLt and select as scanning does, for every sequence  *)
(* of up to N values of W bits.                                               *)
EXTENDS Wavelet, TLC
CONSTANTS N, W
VARIABLE vals
Init == vals = <<>>
Next == Len(vals) < N /\ \E v \in 0 .. (2^W - 1) : vals' = Append(vals, v)
Bit(x, i) == (x \div (2^(W - i))) % 2          \* level i = 1..W, most significant first
RECURSIVE Level(_)
Level(i) == IF i = 1 THEN vals ELSE
  LET p == Level(i - 1) IN SelectSeq(p, LAMBDA x : Bit(x, i - 1) = 0) \o SelectSeq(p, LAMBDA x : Bit(x, i - 1) = 1)
Off(i) == Len(SelectSeq(Level(i), LAMBDA x : Bit(x, i) = 0))
Rank1(i, p) == Len(SelectSeq(SubSeq(Level(i), 1, p), LAMBDA x : Bit(x, i) = 1))
RECURSIVE Walk(_, _, _)
Walk(v, p, i) == IF i > W THEN p ELSE Walk(v, IF Bit(v, i) = 1 THEN Off(i) + Rank1(i, p) ELSE p - Rank1(i, p), i + 1)
RECURSIVE WalkLt(_, _, _)
WalkLt(v, p, i) == IF i > W THEN 0 ELSE
   IF Bit(v, i) = 1 THEN (p - Rank1(i, p)) + WalkLt(v, Off(i) + Rank1(i, p), i + 1)
   ELSE WalkLt(v, p - Rank1(i, p), i + 1)
RECURSIVE Get(_, _)
Get(p, i) == IF i > W THEN 0 ELSE LET b == Bit(Level(i)[p + 1], i) IN
   b * 2^(W - i) + Get(IF b = 1 THEN Off(i) + Rank1(i, p) ELSE p - Rank1(i, p), i + 1)
MRank(v, p) == Walk(v, p, 1) - Walk(v, 0, 1)
MLt(v, p) == WalkLt(v, p, 1) - WalkLt(v, 0, 1)
V == 0 .. (2^W - 1)
GetOk == \A p \in 0 .. Len(vals) - 1 : Get(p, 1) = vals[p + 1]
RankOk == \A v \in V : \A p \in 0 .. Len(vals) : MRank(v, p) = CountOf(SubSeq(vals, 1, p), v)
LtOk == \A v \in V : \A p \in 0 .. Len(vals) : MLt(v, p) = Len(SelectSeq(SubSeq(vals, 1, p), LAMBDA x : x < v))
Emit == PrintT(<<"GEN", <<Len(vals)>> \o vals>>)
=============================================================================
