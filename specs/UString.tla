------------------------------ MODULE UString ------------------------------
(* P18: two Unicode strings a and b as ideal sequences of code points. Every  *)
(* modifying operation is a splice: n elements from off are replaced by a     *)
(* source, which may be (a part of) the string itself, the other string, a    *)
(* literal or a repeated character. An offset past the end throws and leaves  *)
(* the string as it was. -1 stands for npos.                                  *)
EXTENDS Bytes
Clip(s, off, n) == IF n < 0 \/ n > Len(s) - off THEN Len(s) - off ELSE n
Bad == [ok |-> FALSE, v |-> <<>>]
Source(S, x) ==
  CASE x.k = "lit" -> [ok |-> TRUE, v |-> x.s]
    [] x.k = "rep" -> [ok |-> TRUE, v |-> [i \in 1 .. x.cnt |-> x.c]]
    [] OTHER -> LET s == IF x.k = "self" THEN S.a ELSE S.b IN
         IF x.off > Len(s) THEN Bad
         ELSE LET r == Slice(s, x.off, Clip(s, x.off, x.cnt)) IN
              [ok |-> TRUE, v |-> IF x.z THEN SubSeq(r, 1, FirstIn(r, 1, {0}) - 1) ELSE r]   \* z: as NUL-terminated text
Splice(s, off, n, ins) == SubSeq(s, 1, off) \o ins \o SubSeq(s, off + Clip(s, off, n) + 1, Len(s))
\* result of an edit: [ok, a]
Edit(S, e) == LET x == Source(S, e.src) IN
  IF ~x.ok THEN Bad
  ELSE CASE e.k = "assign" -> [ok |-> TRUE, v |-> x.v]
         [] e.k = "append" -> [ok |-> TRUE, v |-> S.a \o x.v]
         [] e.k \in {"insert", "erase", "replace"} -> IF e.off > Len(S.a) THEN Bad ELSE [ok |-> TRUE, v |-> Splice(S.a, e.off, e.n, x.v)]
         [] e.k = "resize" -> [ok |-> TRUE, v |-> IF e.n <= Len(S.a) THEN SubSeq(S.a, 1, e.n) ELSE S.a \o [i \in 1 .. e.n - Len(S.a) |-> e.src.c]]
RangeOf(s) == {s[i] : i \in 1 .. Len(s)}
MinOr(X) == IF X = {} THEN -1 ELSE CHOOSE x \in X : \A y \in X : x <= y
MaxOr(X) == IF X = {} THEN -1 ELSE CHOOSE x \in X : \A y \in X : y <= x
\* 0-based positions where p occurs in s
Occ(s, p) == {i \in 0 .. Len(s) - Len(p) : Slice(s, i, Len(p)) = p}
Lim(s, off) == IF off < 0 THEN Len(s) ELSE off
Find(f, s, p, off) ==
  LET P == RangeOf(p) I == 0 .. Len(s) - 1 IN
  CASE f = "find" -> MinOr({i \in Occ(s, p) : i >= off})
    [] f = "rfind" -> MaxOr({i \in Occ(s, p) : i <= Lim(s, off)})
    [] f = "ffo" -> MinOr({i \in I : i >= off /\ s[i + 1] \in P})
    [] f = "flo" -> MaxOr({i \in I : i <= Lim(s, off) /\ s[i + 1] \in P})
    [] f = "ffno" -> MinOr({i \in I : i >= off /\ s[i + 1] \notin P})
    [] f = "flno" -> MaxOr({i \in I : i <= Lim(s, off) /\ s[i + 1] \notin P})
Cmp(x, y) == LET n == Min2(Len(x), Len(y)) D == {i \in 1 .. n : x[i] # y[i]} IN
  IF D = {} THEN (IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE 0)
  ELSE LET d == CHOOSE i \in D : \A j \in D : i <= j IN IF x[d] < y[d] THEN -1 ELSE 1
Step(S, e) ==
  CASE e.op = "edit" -> LET w == Edit(S, e) T == IF w.ok THEN [S EXCEPT !.a = w.v] ELSE S IN
         IF e.ok = w.ok /\ e.a = T.a THEN {T} ELSE {}
    [] e.op = "swap" -> IF e.a = S.b /\ e.b = S.a THEN {[a |-> S.b, b |-> S.a]} ELSE {}
    [] e.op = "move" -> IF e.a = S.b /\ e.n = 0 THEN {[a |-> S.b, b |-> <<>>]} ELSE {}       \* a = move(b); b given a new value next
    [] e.op = "concat" -> IF e.r = S.a \o e.s THEN {S} ELSE {}
    [] e.op = "both" -> IF e.a = S.a /\ e.b = S.b /\ e.na = Len(S.a) /\ e.empty = (S.a = <<>>) /\ e.h THEN {S} ELSE {}
    [] e.op = "find" -> IF e.r = Find(e.f, S.a, e.p, e.off) THEN {S} ELSE {}
    [] e.op = "cmp" -> LET n == Clip(S.a, Min2(e.off, Len(S.a)), e.n) IN
         IF e.off > Len(S.a) THEN (IF ~e.ok THEN {S} ELSE {})
         ELSE IF e.ok /\ e.r = Cmp(Slice(S.a, e.off, n), e.p) THEN {S} ELSE {}
    [] e.op = "rel" -> LET c == Cmp(S.a, e.p) IN IF e.r = <<c = 0, c # 0, c < 0, c <= 0, c > 0, c >= 0>> THEN {S} ELSE {}
    [] e.op = "sub" -> IF e.off > Len(S.a) THEN (IF ~e.ok THEN {S} ELSE {})
         ELSE IF e.ok /\ e.r = Slice(S.a, e.off, Clip(S.a, e.off, e.n)) THEN {S} ELSE {}
    [] e.op = "at" -> IF e.i >= Len(S.a) THEN (IF ~e.ok THEN {S} ELSE {}) ELSE IF e.ok /\ e.r = S.a[e.i + 1] THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
