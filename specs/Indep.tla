--------------------------------- MODULE Indep ---------------------------------
(* P45: objects are worlds of their own. An object is made for a script (what *)
(* will be asked of it) and takes its steps one by one; the observation made  *)
(* at a step is fixed by kind, script and step number alone, whatever other   *)
(* objects are made, used or ended in between, and in whatever thread.        *)
(* ref holds what the kinds were seen to do alone (solo).                     *)
EXTENDS Integers, Sequences, FiniteSets
InitI == [ref |-> {}, ob |-> {}]
Seen(S, k, s) == {r \in S.ref : r.kind = k /\ r.script = s}
Alone(S, k, s) == (CHOOSE r \in Seen(S, k, s) : TRUE).obs
Has(S, o) == \E x \in S.ob : x.o = o
Ob(S, o) == CHOOSE x \in S.ob : x.o = o
Solo(S, e) == IF e.obs = <<>> THEN {}
  ELSE IF Seen(S, e.kind, e.script) = {} THEN {[S EXCEPT !.ref = @ \cup {[kind |-> e.kind, script |-> e.script, obs |-> e.obs]}]}
  ELSE IF Alone(S, e.kind, e.script) = e.obs THEN {S} ELSE {}
New(S, e) == IF Has(S, e.o) \/ Seen(S, e.kind, e.script) = {} THEN {} ELSE {[S EXCEPT !.ob = @ \cup {[o |-> e.o, kind |-> e.kind, script |-> e.script, k |-> 0]}]}
More(S, o) == LET x == Ob(S, o) IN x.k < Len(Alone(S, x.kind, x.script))
Expected(S, o) == LET x == Ob(S, o) IN Alone(S, x.kind, x.script)[x.k + 1]
Take(S, o) == [S EXCEPT !.ob = (@ \ {Ob(S, o)}) \cup {[Ob(S, o) EXCEPT !.k = @ + 1]}]
Step(S, e) ==
  CASE e.op = "solo" -> Solo(S, e)
    [] e.op = "new" -> New(S, e)
    [] e.op = "step" -> IF Has(S, e.o) /\ More(S, e.o) /\ e.obs = Expected(S, e.o) THEN {Take(S, e.o)} ELSE {}
    [] e.op = "del" -> IF Has(S, e.o) THEN {[S EXCEPT !.ob = @ \ {Ob(S, e.o)}]} ELSE {}
    \* the same script again and again in a thread, beside threads that use objects of their own
    [] e.op = "thread" -> IF Seen(S, e.kind, e.script) # {} /\ e.same /\ e.obs = Alone(S, e.kind, e.script) THEN {S} ELSE {}
    [] e.op = "races" -> IF e.n = 0 THEN {S} ELSE {}     \* accesses of one thread to what another holds
    [] OTHER -> {}
=============================================================================
