----------------------------- MODULE UStringMC -----------------------------
(* Every history of N edits with self, other and literal sources.             *)
EXTENDS UString, TLC
CONSTANT N
VARIABLES S, h
Src(k, off, cnt) == [k |-> k, off |-> off, cnt |-> cnt, z |-> FALSE, s |-> <<1, 2>>, c |-> 3]
\* the operations, by number; offsets are relative to the current length
Op(i) == LET L == Len(S.a)
             offs == <<0, 1, L, L + 1>> srcs == <<Src("self", 0, -1), Src("self", 1, 1), Src("other", 0, -1), Src("lit", 0, 0), Src("rep", 0, 2), Src("self", L + 1, 1)>> IN
  IF i <= 6 THEN [k |-> "assign", off |-> 0, n |-> 0, src |-> srcs[i]]
  ELSE IF i <= 12 THEN [k |-> "append", off |-> 0, n |-> 0, src |-> srcs[i - 6]]
  ELSE IF i <= 28 THEN [k |-> "insert", off |-> offs[((i - 13) % 4) + 1], n |-> 0, src |-> srcs[((i - 13) \div 4) + 1]]
  ELSE IF i <= 44 THEN [k |-> "replace", off |-> offs[((i - 29) % 4) + 1], n |-> 1, src |-> srcs[((i - 29) \div 4) + 1]]
  ELSE IF i <= 48 THEN [k |-> "erase", off |-> offs[i - 44], n |-> 1, src |-> Src("rep", 0, 0)]
  ELSE [k |-> "resize", off |-> 0, n |-> IF i = 49 THEN L + 2 ELSE L \div 2, src |-> Src("rep", 0, 0)]
NOps == 50
Init == S = [a |-> <<1, 2, 1>>, b |-> <<2>>] /\ h = <<>>
Next == /\ Len(h) < N
        /\ \/ \E i \in 1 .. NOps : LET w == Edit(S, Op(i)) IN S' = (IF w.ok THEN [S EXCEPT !.a = w.v] ELSE S) /\ h' = Append(h, i)
           \/ S' = [a |-> S.b, b |-> S.a] /\ h' = Append(h, 0)
\* findings are consistent with each other
FindOk == \A p \in {<<>>, <<1>>, <<2, 1>>, <<3>>} : \A off \in 0 .. 4 :
   LET r == Find("find", S.a, p, off) q == Find("rfind", S.a, p, off) IN
   /\ (r >= 0 => r >= off /\ Slice(S.a, r, Len(p)) = p)
   /\ (q >= 0 => q <= off /\ Slice(S.a, q, Len(p)) = p)
   /\ (p # <<>> => Find("find", S.a, p, 0) = -1 <=> Find("rfind", S.a, p, -1) = -1)
   /\ (Find("ffo", S.a, p, off) = off => Find("ffno", S.a, p, off) # off)
   /\ (off < Len(S.a) => (Find("ffo", S.a, p, off) = off) # (Find("ffno", S.a, p, off) = off))
CmpOk == Cmp(S.a, S.a) = 0 /\ Cmp(S.a, S.b) = -Cmp(S.b, S.a) /\ Cmp(<<>>, S.a) = (IF S.a = <<>> THEN 0 ELSE -1)
LenOk == \A i \in 1 .. NOps : LET o == Op(i) w == Edit(S, o) x == Source(S, o.src) IN
   w.ok /\ o.k \in {"insert", "replace", "erase"} => Len(w.v) = Len(S.a) - Clip(S.a, o.off, o.n) + Len(x.v)
Emit == h # <<>> => PrintT(<<"GEN", <<Len(h)>> \o h>>)
=============================================================================
