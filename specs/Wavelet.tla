------------------------------- MODULE Wavelet -------------------------------
(* P08: a sequence of values below 2^w with counting queries.                 *)
EXTENDS Bytes
InitW == [vals |-> <<>>, w |-> 0, runs |-> <<>>]
\* long sequences are given as runs <<length, value>>
RECURSIVE RunLen(_), RunCnt(_, _, _, _), RunPos(_, _, _, _), RunAt(_, _)
RunLen(rs) == IF rs = <<>> THEN 0 ELSE rs[1][1] + RunLen(Tail(rs))
RunCnt(rs, v, p, lt) == IF rs = <<>> \/ p <= 0 THEN 0
  ELSE (IF (lt /\ rs[1][2] < v) \/ (~lt /\ rs[1][2] = v) THEN Min2(p, rs[1][1]) ELSE 0) + RunCnt(Tail(rs), v, p - rs[1][1], lt)
RunPos(rs, v, k, off) == IF rs = <<>> THEN -1
  ELSE IF rs[1][2] # v THEN RunPos(Tail(rs), v, k, off + rs[1][1])
  ELSE IF k < rs[1][1] THEN off + k ELSE RunPos(Tail(rs), v, k - rs[1][1], off + rs[1][1])
RunAt(rs, p) == IF p < rs[1][1] THEN rs[1][2] ELSE RunAt(Tail(rs), p - rs[1][1])
CountOf(s, v) == Len(SelectSeq(s, LAMBDA x : x = v))
Step(S, e) ==
  CASE e.op = "init" -> {[vals |-> e.vals, w |-> e.w, runs |-> <<>>]}
    [] e.op = "initRuns" -> {[vals |-> <<>>, w |-> e.w, runs |-> e.runs]}
    [] e.op = "saveload" -> IF e.ok THEN {S} ELSE {}
    [] e.op = "size" -> IF e.n = Len(S.vals) + RunLen(S.runs) THEN {S} ELSE {}
    [] e.op = "getAll" -> IF e.r = S.vals THEN {S} ELSE {}
    \* r[i] = rank(v, i-1)
    [] e.op = "rankAll" -> IF /\ Len(e.r) = Len(S.vals) + 1 /\ e.r[1] = 0
                              /\ \A i \in 1 .. Len(S.vals) : e.r[i + 1] = e.r[i] + (IF S.vals[i] = e.v THEN 1 ELSE 0)
                              /\ e.past = e.r[Len(e.r)] /\ e.total = e.r[Len(e.r)]
                           THEN {S} ELSE {}
    [] e.op = "ltAll" -> IF /\ Len(e.r) = Len(S.vals) + 1 /\ e.r[1] = 0
                            /\ \A i \in 1 .. Len(S.vals) : e.r[i + 1] = e.r[i] + (IF S.vals[i] < e.v THEN 1 ELSE 0)
                            /\ e.past = e.r[Len(e.r)]
                         THEN {S} ELSE {}
    \* r[k] = select(v, k-1), -1: not found
    [] e.op = "selAll" -> LET c == CountOf(S.vals, e.v) IN
         IF /\ Len(e.r) > c
            /\ \A k \in 1 .. Len(e.r) : IF k > c THEN e.r[k] = -1
                 ELSE /\ e.r[k] >= 0 /\ e.r[k] < Len(S.vals) /\ S.vals[e.r[k] + 1] = e.v
                      /\ (k > 1 => e.r[k - 1] < e.r[k])
         THEN {S} ELSE {}
    \* value and its rank at a position, together
    [] e.op = "getRank" -> IF /\ S.vals[e.p + 1] = e.v /\ e.r = CountOf(SubSeq(S.vals, 1, e.p), e.v) THEN {S} ELSE {}
    [] e.op = "at" -> IF e.v = RunAt(S.runs, e.p) /\ e.v2 = e.v /\ e.r = RunCnt(S.runs, e.v, e.p, FALSE) THEN {S} ELSE {}
    [] e.op = "cnt" -> IF e.r = RunCnt(S.runs, e.v, e.p, FALSE) /\ e.lt = RunCnt(S.runs, e.v, e.p, TRUE) THEN {S} ELSE {}
    [] e.op = "sel" -> IF e.r = RunPos(S.runs, e.v, e.k, 0) THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
