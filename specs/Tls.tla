-------------------------------- MODULE Tls ---------------------------------
(* P29: slots of thread-local values. A slot is absent, usable, or without a  *)
(* key because the system had none left (then it stores nothing). e.hard: the *)
(* system refused a request made during this operation.                       *)
EXTENDS Integers, Sequences, FiniteSets
Absent == [st |-> "no", v |-> <<>>]
InitT(nt, ns) == [s |-> [k \in 1 .. ns |-> Absent], nt |-> nt]
Empty(S, st) == [st |-> st, v |-> [t \in 1 .. S.nt |-> 0]]
Usable(S) == {k \in DOMAIN S.s : S.s[k].st = "ok"}
Step(S, e) ==
  CASE e.op = "new" -> IF S.s[e.k].st = "no" THEN {[S EXCEPT !.s[e.k] = Empty(S, IF e.hard THEN "bad" ELSE "ok")]} ELSE {}
    [] e.op = "del" -> IF S.s[e.k].st # "no" THEN {[S EXCEPT !.s[e.k] = Absent]} ELSE {}
    [] e.op = "set" -> LET ok == S.s[e.k].st = "ok" /\ ~e.hard IN
                       IF e.r # ok THEN {} ELSE IF ok THEN {[S EXCEPT !.s[e.k].v[e.t] = e.x]} ELSE {S}
    [] e.op = "get" -> IF e.r = (IF S.s[e.k].st = "ok" THEN S.s[e.k].v[e.t] ELSE 0) THEN {S} ELSE {}
    [] e.op = "exit" -> {[S EXCEPT !.s = [k \in DOMAIN @ |-> IF @[k].st = "no" THEN @[k] ELSE [@[k] EXCEPT !.v[e.t] = 0]]]}   \* the thread ends and a new one takes its number
    [] e.op = "keys" -> IF e.r = Cardinality(Usable(S)) THEN {S} ELSE {}    \* keys held of the system
    [] OTHER -> {}
=============================================================================
