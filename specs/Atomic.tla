------------------------------- MODULE Atomic -------------------------------
(* P28: one cell of 2 or 4 limbs of 16 bits, wrapping. An operation takes     *)
(* effect at one point between its call and its return.                       *)
EXTENDS Integers, Sequences
RECURSIVE AddL(_, _, _)
AddL(a, b, c) == IF a = <<>> THEN <<>> ELSE LET s == a[1] + b[1] + c IN <<s % 65536>> \o AddL(Tail(a), Tail(b), s \div 65536)
Plus(a, b) == AddL(a, b, 0)
(* p: thread -> [f, x, y, r]: none / pending / done with result r *)
Idle == [f |-> "none", x |-> <<>>, y |-> <<>>, r |-> <<>>]
InitA(v, n) == [v |-> v, p |-> [t \in 1 .. n |-> Idle]]
After(v, q) == CASE q.f = "add" -> Plus(v, q.x) [] q.f = "xchg" -> q.x [] q.f = "cas" -> IF v = q.y THEN q.x ELSE v [] q.f = "load" -> v
Pending(S) == {t \in DOMAIN S.p : S.p[t].f \in {"add", "xchg", "cas", "load"}}
Lin(S) == {[v |-> After(S.v, S.p[t]), p |-> [S.p EXCEPT ![t] = [f |-> "done", x |-> <<>>, y |-> <<>>, r |-> S.v]]] : t \in Pending(S)}
RECURSIVE Closure(_)
Closure(X) == LET Y == X \cup UNION {Lin(S) : S \in X} IN IF Y = X THEN X ELSE Closure(Y)
Step(S, e) ==
  CASE e.op = "call" -> IF S.p[e.t] # Idle THEN {} ELSE {[S EXCEPT !.p[e.t] = [f |-> e.f, x |-> e.x, y |-> e.y, r |-> <<>>]]}
    [] e.op = "ret" -> {[T EXCEPT !.p[e.t] = Idle] : T \in {T \in Closure({S}) : T.p[e.t].f = "done" /\ T.p[e.t].r = e.r}}
    [] e.op = "final" -> {T \in {S} : T.v = e.v /\ e.around /\ \A t \in DOMAIN T.p : T.p[t] = Idle}
    [] OTHER -> {}
=============================================================================
