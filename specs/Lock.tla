-------------------------------- MODULE Lock --------------------------------
(* P27: a lock and a condition. Blocking operations are split into call,      *)
(* effect (internal) and return, so that every history of calls and returns   *)
(* allowed by the semantics is accepted and no other.                         *)
EXTENDS Integers, Sequences, FiniteSets
(* own: holder or 0; pc: thread -> idle want got in leave left w0 sleep back got2; nt: notification in progress; spur: spurious wakeups the system may still cause *)
InitL(n, spur) == [own |-> 0, pc |-> [t \in 1 .. n |-> "idle"], nt |-> [t \in 1 .. n |-> ""], spur |-> spur]
Ts(S) == DOMAIN S.pc
Sleepers(S) == {t \in Ts(S) : S.pc[t] = "sleep"}
Inner(S) ==
  {[S EXCEPT !.own = t, !.pc[t] = IF @ = "want" THEN "got" ELSE "got2"] : t \in {t \in Ts(S) : S.own = 0 /\ S.pc[t] \in {"want", "back"}}}
  \cup {[S EXCEPT !.own = 0, !.pc[t] = "left"] : t \in {t \in Ts(S) : S.pc[t] = "leave"}}
  \cup {[S EXCEPT !.own = 0, !.pc[t] = "sleep"] : t \in {t \in Ts(S) : S.pc[t] = "w0"}}
  \cup {[S EXCEPT !.pc[t] = "back", !.spur = @ - 1] : t \in {t \in Sleepers(S) : S.spur > 0}}
  \cup UNION {IF S.nt[t] = "one" THEN (IF Sleepers(S) = {} THEN {[S EXCEPT !.nt[t] = "done"]} ELSE {[S EXCEPT !.nt[t] = "done", !.pc[u] = "back"] : u \in Sleepers(S)})
              ELSE IF S.nt[t] = "all" THEN {[S EXCEPT !.nt[t] = "done", !.pc = [u \in Ts(S) |-> IF @[u] = "sleep" THEN "back" ELSE @[u]]]} ELSE {} : t \in Ts(S)}
RECURSIVE Closure(_)
Closure(X) == LET Y == X \cup UNION {Inner(S) : S \in X} IN IF Y = X THEN X ELSE Closure(Y)
Move(S, t, from, to) == {[T EXCEPT !.pc[t] = to] : T \in {T \in Closure({S}) : T.pc[t] = from}}
Step(S, e) ==
  CASE e.op = "lock" -> Move(S, e.t, "idle", "want")
    [] e.op = "locked" -> Move(S, e.t, "got", "in")
    [] e.op = "unlock" -> Move(S, e.t, "in", "leave")
    [] e.op = "unlocked" -> Move(S, e.t, "left", "idle")
    [] e.op = "wait" -> Move(S, e.t, "in", "w0")
    [] e.op = "waited" -> Move(S, e.t, "got2", "in")
    [] e.op = "notify" -> IF S.nt[e.t] = "" THEN {[S EXCEPT !.nt[e.t] = e.k]} ELSE {}
    [] e.op = "notified" -> {[T EXCEPT !.nt[e.t] = ""] : T \in {T \in Closure({S}) : T.nt[e.t] = "done"}}
    [] e.op = "stuck" -> \* only threads in a condition wait that nobody notified may be left
         {T \in Closure({S}) : T.own = 0 /\ \A t \in Ts(T) : T.nt[t] = "" /\ T.pc[t] = IF t \in {e.ts[i] : i \in 1 .. Len(e.ts)} THEN "sleep" ELSE "idle"}
    [] e.op = "over" -> {T \in Closure({S}) : T.own = 0 /\ \A t \in Ts(T) : T.pc[t] = "idle"}
    [] OTHER -> {}
=============================================================================
