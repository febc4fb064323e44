------------------------------ MODULE Parallel -------------------------------
(* P24: a parallel loop over 0 .. n-1 with at most tn threads.                *)
EXTENDS Integers, Sequences, FiniteSets
InitP(n, tn) == [n |-> n, tn |-> tn, done |-> {}, run |-> {}, off |-> {}, cnt |-> [t \in 0 .. tn |-> 0], threw |-> FALSE, stop |-> {}, fail |-> FALSE, over |-> FALSE]
Ceil(n, m) == (n + m - 1) \div m
Eff(S) == IF S.tn < S.n THEN S.tn ELSE S.n
RECURSIVE Sum(_, _)
Sum(f, X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN f[x] + Sum(f, X \ {x})
(* indices never run: at most what the threads that asked to stop still had *)
Skippable(S) == Sum([t \in S.stop |-> Ceil(S.n, Eff(S)) - S.cnt[t]], S.stop)
Step(S, e) ==
  CASE e.op = "call" ->
         IF S.over \/ e.i < 0 \/ e.i >= S.n \/ e.t < 0 \/ e.t >= S.tn \/ e.t \in S.off
            \/ e.i \in S.done \/ (\E r \in S.run : r[1] = e.i \/ r[2] = e.t) THEN {}
         ELSE {[S EXCEPT !.run = @ \cup {<<e.i, e.t>>}]}
    [] e.op = "ret" ->
         IF <<e.i, e.t>> \notin S.run THEN {}
         ELSE {[S EXCEPT !.run = @ \ {<<e.i, e.t>>}, !.done = @ \cup {e.i}, !.cnt[e.t] = @ + 1,
                         !.off = IF e.how = "ok" THEN @ ELSE @ \cup {e.t},
                         !.stop = IF e.how = "stop" THEN @ \cup {e.t} ELSE @, !.threw = @ \/ e.how = "throw"]}
    [] e.op = "create" -> {[S EXCEPT !.fail = @ \/ e.h < 0]}
    [] e.op \in {"join", "joined", "detach"} -> IF e.h < 0 THEN {} ELSE {S}
    [] e.op = "end" ->
         LET must == S.threw \/ S.fail \/ (S.n > 0 /\ S.tn = 0) IN
         IF S.run # {} \/ S.over \/ e.thrown # must THEN {}
         ELSE IF ~must /\ S.n - Cardinality(S.done) > (IF S.n = 0 THEN 0 ELSE Skippable(S)) THEN {}
         ELSE {[S EXCEPT !.over = TRUE]}
    [] e.op = "left" -> IF S.over /\ e.threads = 0 THEN {S} ELSE {}   \* nothing of the loop is left running or unjoined
    [] OTHER -> {}
=============================================================================
