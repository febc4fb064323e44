------------------------------ MODULE RankSelect ------------------------------
(* P07: a bit sequence with counting queries. The sequence is kept either as  *)
(* plain bits (dense) or as runs <<length, bit>> (long sequences).            *)
EXTENDS Bytes
Count(bits, b) == Len(SelectSeq(bits, LAMBDA x : x = b))
RECURSIVE RunLen(_), RunCount(_, _)
RunLen(rs) == IF rs = <<>> THEN 0 ELSE rs[1][1] + RunLen(Tail(rs))
RunCount(rs, b) == IF rs = <<>> THEN 0 ELSE (IF rs[1][2] = b THEN rs[1][1] ELSE 0) + RunCount(Tail(rs), b)
\* number of b before position p
RECURSIVE RunRank(_, _, _)
RunRank(rs, b, p) == IF rs = <<>> \/ p <= 0 THEN 0
                     ELSE (IF rs[1][2] = b THEN Min2(p, rs[1][1]) ELSE 0) + RunRank(Tail(rs), b, p - rs[1][1])
\* position of the k-th (0-based) b, or -1
RECURSIVE RunSel(_, _, _, _)
RunSel(rs, b, k, off) == IF rs = <<>> THEN -1
                         ELSE IF rs[1][2] # b THEN RunSel(Tail(rs), b, k, off + rs[1][1])
                         ELSE IF k < rs[1][1] THEN off + k
                         ELSE RunSel(Tail(rs), b, k - rs[1][1], off + rs[1][1])
RECURSIVE RunGet(_, _)
RunGet(rs, p) == IF p < rs[1][1] THEN rs[1][2] ELSE RunGet(Tail(rs), p - rs[1][1])

InitRS == [bits |-> <<>>, runs |-> <<>>]
Step(S, e) ==
  CASE e.op = "init" -> {[bits |-> e.bits, runs |-> <<>>]}
    [] e.op = "initRuns" -> {[bits |-> <<>>, runs |-> e.runs]}
    [] e.op = "saveload" -> IF e.ok THEN {S} ELSE {}
    \* dense: the answers for all arguments at once
    [] e.op = "getAll" -> IF e.r = S.bits THEN {S} ELSE {}
    [] e.op = "rankAll" ->   \* r[i] = rank(b, i-1), i-1 = 0 .. Len
         IF /\ Len(e.r) = Len(S.bits) + 1 /\ e.r[1] = 0
            /\ \A i \in 1 .. Len(S.bits) : e.r[i + 1] = e.r[i] + (IF S.bits[i] = e.b THEN 1 ELSE 0)
         THEN {S} ELSE {}
    [] e.op = "selAll" ->    \* r[k] = select(b, k-1) for k-1 = 0 .. at least count
         LET c == Count(S.bits, e.b) IN
         IF /\ Len(e.r) > c
            /\ \A k \in 1 .. Len(e.r) :
                 IF k > c THEN e.r[k] = -1
                 ELSE /\ e.r[k] >= 0 /\ e.r[k] < Len(S.bits) /\ S.bits[e.r[k] + 1] = e.b
                      /\ (k > 1 => e.r[k - 1] < e.r[k])
         THEN {S} ELSE {}   \* c increasing positions holding b are all of them
    [] e.op = "size" -> IF e.n = Len(S.bits) + RunLen(S.runs) THEN {S} ELSE {}
    [] e.op = "count" -> IF e.n = Count(S.bits, e.b) + RunCount(S.runs, e.b) THEN {S} ELSE {}
    [] e.op = "getBad" -> IF e.thrown THEN {S} ELSE {}             \* get at or past the size
    [] e.op = "rank" -> IF e.r = RunRank(S.runs, e.b, e.p) THEN {S} ELSE {}
    [] e.op = "select" -> IF e.r = RunSel(S.runs, e.b, e.k, 0) THEN {S} ELSE {}
    [] e.op = "get" -> IF e.r = RunGet(S.runs, e.p) THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
