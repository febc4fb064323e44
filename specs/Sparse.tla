------------------------------- MODULE Sparse -------------------------------
(* P33: sparse vectors (plain and compressed position tables) as increasing   *)
(* sequences of <<position, value>>; intersection, union, inner product.      *)
(* A position is a 64 bit number as four 16 bit limbs, least first.           *)
EXTENDS Words
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i - 1)
PLess(a, b) == LessFrom(a, b, 4)
Zero64 == <<0, 0, 0, 0>>
PSub(a, b) == LET c1 == a[1] - b[1] k1 == IF c1 < 0 THEN 1 ELSE 0 c2 == a[2] - b[2] - k1 k2 == IF c2 < 0 THEN 1 ELSE 0
                  c3 == a[3] - b[3] - k2 k3 == IF c3 < 0 THEN 1 ELSE 0 c4 == a[4] - b[4] - k3
              IN <<(c1 + 65536) % 65536, (c2 + 65536) % 65536, (c3 + 65536) % 65536, (c4 + 65536) % 65536>>
Below2p30(a) == a[4] = 0 /\ a[3] = 0 /\ a[2] < 16384
Below2p32(a) == a[4] = 0 /\ a[3] = 0
LastPos(x) == IF x.e = <<>> THEN Zero64 ELSE x.e[Len(x.e)][1]
\* may p be appended
Fits(x, p) == /\ x.e = <<>> \/ PLess(LastPos(x), p)
              /\ IF x.k = "comp" THEN Below2p30(PSub(p, LastPos(x))) ELSE Below2p32(p)
RECURSIVE AppendAll(_, _, _)
\* append pairs one after the other up to the first which is refused
AppendAll(x, ps, i) == IF i > Len(ps) THEN [v |-> x, n |-> i - 1] ELSE IF Fits(x, ps[i][1]) THEN AppendAll([x EXCEPT !.e = Append(x.e, ps[i])], ps, i + 1) ELSE [v |-> x, n |-> i - 1]
\* merges: definition by positions (no reference to the algorithm)
At(x, p) == {i \in 1 .. Len(x.e) : x.e[i][1] = p}
ValAt(x, p) == x.e[CHOOSE i \in At(x, p) : TRUE][2]
IsInter(x, y, l) ==
  /\ \A i \in 1 .. Len(l) : At(x, l[i][1]) # {} /\ At(y, l[i][1]) # {} /\ l[i][2] = ValAt(x, l[i][1]) /\ l[i][3] = ValAt(y, l[i][1])
  /\ \A i \in 1 .. Len(l) - 1 : PLess(l[i][1], l[i + 1][1])
  /\ \A i \in 1 .. Len(x.e) : At(y, x.e[i][1]) # {} => \E j \in 1 .. Len(l) : l[j][1] = x.e[i][1]
ModeOf(x, y, p) == IF At(x, p) # {} /\ At(y, p) # {} THEN "both" ELSE IF At(x, p) # {} THEN "first" ELSE "second"
IsUnion(x, y, l) ==
  /\ \A i \in 1 .. Len(l) : LET p == l[i][1] IN
       /\ At(x, p) # {} \/ At(y, p) # {}
       /\ l[i][2] = (IF At(x, p) # {} THEN ValAt(x, p) ELSE 0) /\ l[i][3] = (IF At(y, p) # {} THEN ValAt(y, p) ELSE 0)
       /\ l[i][4] = ModeOf(x, y, p) /\ l[i][5] = ModeOf(x, y, p)
  /\ \A i \in 1 .. Len(l) - 1 : PLess(l[i][1], l[i + 1][1])
  /\ \A i \in 1 .. Len(x.e) : \E j \in 1 .. Len(l) : l[j][1] = x.e[i][1]
  /\ \A i \in 1 .. Len(y.e) : \E j \in 1 .. Len(l) : l[j][1] = y.e[i][1]
RECURSIVE Dot(_, _, _)
Dot(x, y, i) == IF i > Len(x.e) THEN 0 ELSE (IF At(y, x.e[i][1]) # {} THEN x.e[i][2] * ValAt(y, x.e[i][1]) ELSE 0) + Dot(x, y, i + 1)
Put(S, v, e) == [S EXCEPT ![v].e = e]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* S: vectors by number, [k, e, any]; any: contents unknown but some prefix of e (a load that failed)
Settle(x) == x.e
Step(S, e) ==
  CASE e.op = "push" -> LET x == S[e.v] IN IF e.ok # Fits(x, e.p) THEN {} ELSE {Put(S, e.v, IF e.ok THEN Append(x.e, <<e.p, e.x>>) ELSE x.e)}
    [] e.op = "map" -> LET r == AppendAll(S[e.v], e.l, 1) IN IF e.ok # (r.n = Len(e.l)) THEN {} ELSE {[S EXCEPT ![e.v] = r.v]}
    [] e.op = "iter" -> IF e.l = S[e.v].e /\ e.n = Len(S[e.v].e) /\ e.empty = (e.n = 0) THEN {S} ELSE {}
    [] e.op = "clear" -> {Put(S, e.v, <<>>)}
    [] e.op = "swap" -> {[S EXCEPT ![e.v] = S[e.w], ![e.w] = S[e.v]]}
    [] e.op = "copy" -> {[S EXCEPT ![e.v] = S[e.w]]}
    [] e.op = "eq" -> IF e.r = (S[e.v].e = S[e.w].e) /\ e.ne = ~e.r THEN {S} ELSE {}
    [] e.op = "norm" -> IF e.r = Dot(S[e.v], S[e.v], 1) THEN {S} ELSE {}
    [] e.op = "inner" -> IF e.r = Dot(S[e.v], S[e.w], 1) THEN {S} ELSE {}
    [] e.op = "inter" -> IF IsInter(S[e.v], S[e.w], e.l) THEN {S} ELSE {}
    [] e.op = "union" -> IF IsUnion(S[e.v], S[e.w], e.l) THEN {S} ELSE {}
    [] e.op = "load" -> \* what v holds, saved and loaded into w
         LET r == AppendAll([k |-> S[e.w].k, e |-> <<>>], S[e.v].e, 1) IN IF e.ok # (r.n = Len(S[e.v].e)) THEN {} ELSE {[S EXCEPT ![e.w] = r.v]}
    [] e.op = "cut" -> \* the same of a stream that ends early: refused, and what was read until then may stay
         IF e.ok THEN {} ELSE {Put(S, e.w, SubSeq(S[e.v].e, 1, n)) : n \in 0 .. Len(S[e.v].e)} \cup {S}
    [] e.op = "raw" -> \* a stream of arbitrary pairs
         LET r == AppendAll([k |-> S[e.w].k, e |-> <<>>], e.l, 1) IN IF e.ok # (r.n = Len(e.l)) THEN {} ELSE {[S EXCEPT ![e.w] = r.v]}
    [] OTHER -> {}
=============================================================================
