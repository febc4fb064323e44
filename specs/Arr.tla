-------------------------------- MODULE Arr --------------------------------
(* P35: aligned arrays as sequences; Any stands for an element whose value    *)
(* is not determined (added without clearing).                                *)
EXTENDS Integers, Sequences
Any == -1
Grow(a, n, clr) == [i \in 1 .. n |-> IF i <= Len(a) THEN a[i] ELSE IF clr THEN 0 ELSE Any]
Agree(a, r) == Len(a) = Len(r) /\ \A i \in 1 .. Len(a) : a[i] = Any \/ a[i] = r[i]
Step(S, e) ==
  CASE e.op = "new" -> {[S EXCEPT ![e.v] = Grow(<<>>, e.n, e.c)]}
    [] e.op = "resize" -> {[S EXCEPT ![e.v] = Grow(S[e.v], e.n, e.c)]}
    [] e.op = "huge" -> IF e.ok THEN {} ELSE {S}       \* more than memory can hold: refused, nothing changes
    [] e.op = "set" -> IF e.i < Len(S[e.v]) THEN {[S EXCEPT ![e.v][e.i + 1] = e.x]} ELSE {}
    [] e.op = "clear" -> {[S EXCEPT ![e.v] = <<>>]}
    [] e.op = "copy" -> {[S EXCEPT ![e.v] = S[e.w]]}
    [] e.op = "move" -> {[S EXCEPT ![e.v] = S[e.w], ![e.w] = <<>>]}
    [] e.op = "swap" -> {[S EXCEPT ![e.v] = S[e.w], ![e.w] = S[e.v]]}
    [] e.op = "look" -> IF Agree(S[e.v], e.r) /\ e.n = Len(e.r) /\ e.empty = (e.n = 0) /\ e.aligned /\ e.same THEN {[S EXCEPT ![e.v] = e.r]} ELSE {}
    [] e.op = "scoped" -> \* n elements are made and destroyed, all of them; when making element t fails the earlier ones are destroyed
         IF e.ok = (e.t < 0 \/ e.t >= e.n) /\ e.live = 0 /\ (e.ok => e.made = e.n /\ e.n = e.size /\ e.right) /\ (~e.ok => e.made = e.t) THEN {S} ELSE {}
    [] e.op = "freed" -> IF e.bytes = 0 THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
