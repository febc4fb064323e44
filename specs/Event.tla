------------------------------- MODULE Event --------------------------------
(* P26: an auto-reset event. Operations take effect at one point between call *)
(* and return; a wait can only take effect while the event is signalled.      *)
EXTENDS Naturals, Sequences, FiniteSets
(* flag; p: thread -> "idle", "w" (waiting), "s" (waking), "ok" (took effect, not yet returned) *)
InitE(n) == [flag |-> FALSE, p |-> [t \in 1 .. n |-> "idle"]]
Lin(S) == {[flag |-> FALSE, p |-> [S.p EXCEPT ![t] = "ok"]] : t \in {t \in DOMAIN S.p : S.p[t] = "w" /\ S.flag}}
          \cup {[flag |-> TRUE, p |-> [S.p EXCEPT ![t] = "ok"]] : t \in {t \in DOMAIN S.p : S.p[t] = "s"}}
RECURSIVE Closure(_)
Closure(X) == LET Y == X \cup UNION {Lin(S) : S \in X} IN IF Y = X THEN X ELSE Closure(Y)
Step(S, e) ==
  CASE e.op = "call" -> IF S.p[e.t] # "idle" THEN {} ELSE {[S EXCEPT !.p[e.t] = e.f]}
    [] e.op = "ret" -> {[T EXCEPT !.p[e.t] = "idle"] : T \in {T \in Closure({S}) : T.p[e.t] = "ok"}}
    [] e.op = "stuck" -> \* nobody can run: every blocked thread waits, and the event is not signalled
         {T \in Closure({S}) : ~T.flag /\ \A t \in DOMAIN T.p : T.p[t] \in {"idle", "w"}}
    [] e.op = "over" -> {T \in Closure({S}) : \A t \in DOMAIN T.p : T.p[t] = "idle"}
    [] OTHER -> {}
=============================================================================
