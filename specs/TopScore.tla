------------------------------ MODULE TopScore ------------------------------
(* P34: the bounded table of best scores.                                     *)
EXTENDS Integers, Sequences, FiniteSets
\* what the table must be, by definition: of all additions h those with fewer than cap better ones (an earlier equal score is better), best first
Better(h, j, i) == h[j][1] > h[i][1] \/ (h[j][1] = h[i][1] /\ j < i)
Rank(h, i) == Cardinality({j \in 1 .. Len(h) : Better(h, j, i)})
Best(h, cap) == LET n == IF Len(h) < cap THEN Len(h) ELSE cap IN [r \in 1 .. n |-> h[CHOOSE i \in 1 .. Len(h) : Rank(h, i) = r - 1]]
\* the same, one addition at a time
Insert(t, cap, x) == LET k == Cardinality({i \in 1 .. Len(t) : t[i][1] >= x[1]}) u == SubSeq(t, 1, k) \o <<x>> \o SubSeq(t, k + 1, Len(t)) IN IF Len(u) > cap THEN SubSeq(u, 1, cap) ELSE u
Step(S, e) ==
  CASE e.op = "size" -> {[cap |-> e.cap, t |-> <<>>]}    \* a new capacity, and the table starts anew
    [] e.op = "add" -> {[S EXCEPT !.t = Insert(S.t, S.cap, <<e.s, e.x>>)]}
    [] e.op = "table" -> IF e.r = S.t THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
