------------------------------- MODULE QuitMC -------------------------------
(* Signals at any moment: before, inside and after calls of quit(). From each *)
(* outside signal to the end of its calls the application is told once for it *)
(* and once for each different signal raised inside - the number the trace    *)
(* rule Told uses.                                                            *)
EXTENDS Quit, TLC
CONSTANTS Len0, Two
VARIABLES S, h, first, inner, before
vars == <<S, h, first, inner, before>>
Init == S = InitQ /\ h = <<>> /\ first = 0 /\ inner = {} /\ before = 0
Sum(n) == n[1] + n[2] + n[3]
Next ==
  \/ Len(h) < Len0 /\ S.run = 0 /\ first = 0 /\ \E a \in 1 .. 2 : S' = Install(S, a) /\ h' = Append(h, -a) /\ UNCHANGED <<first, inner, before>>
  \/ Len(h) < Len0 /\ S.run = 0 /\ S.cur # 0 /\ first = 0 /\ \E s \in Two : S' = Come(S, s) /\ first' = s /\ inner' = {} /\ before' = Sum(S.n) /\ h' = Append(h, s)
  \/ Len(h) < Len0 /\ S.run # 0 /\ Sum(S.n) = before + 1 /\ \E s \in Two : S' = Come(S, s) /\ inner' = inner \cup {s} /\ h' = Append(h, 100 + s) /\ UNCHANGED <<first, before>>
  \/ Len(h) < Len0 /\ S.run # 0 /\ Sum(S.n) = before + 1 /\ \E a \in 1 .. 2 : S' = Install(S, a) /\ h' = Append(h, 200 + a) /\ UNCHANGED <<first, inner, before>>
  \/ S.run # 0 /\ S' \in Return(S) /\ UNCHANGED <<h, first, inner, before>>
  \/ S.run = 0 /\ first # 0 /\ first' = 0 /\ inner' = {} /\ UNCHANGED <<S, h, before>>
Once == (S.run = 0 /\ first # 0) => Sum(S.n) - before = Told(S, first, inner)
Lost == S.run = 0 => S.pend = {}
Emit == (Len(h) = Len0 /\ first = 0) => PrintT(<<"GEN", h>>)
=============================================================================
