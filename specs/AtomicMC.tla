------------------------------ MODULE AtomicMC ------------------------------
(* Consequences users build on, for every program of NT threads with up to NO *)
(* operations (1 add 1, 2 exchange with an own mark, 3 compare-exchange from  *)
(* 0 to an own mark, 4 increment by a compare-exchange loop) and every        *)
(* interleaving.                                                              *)
EXTENDS Atomic, TLC
CONSTANTS NT, NO
VARIABLES prog, S, start, rets, last
vars == <<prog, S, start, rets, last>>
T == 1 .. NT
Z == <<0, 0>>
One == <<1, 0>>
Mark(t) == <<0, t>>
Init == /\ prog \in [T -> UNION {[1 .. n -> 1 .. 4] : n \in 0 .. NO}] /\ (\A t \in T : t < NT => Len(prog[t]) >= Len(prog[t + 1]))
        /\ S = InitA(Z, NT) /\ start = prog /\ rets = <<>> /\ last = [t \in T |-> <<>>]
Call(t) == prog[t] # <<>> /\ S.p[t] = Idle /\
  LET k == Head(prog[t]) q == CASE k = 1 -> [f |-> "add", x |-> One, y |-> <<>>, r |-> <<>>] [] k = 2 -> [f |-> "xchg", x |-> Mark(t), y |-> <<>>, r |-> <<>>]
            [] k = 3 -> [f |-> "cas", x |-> Mark(t), y |-> Z, r |-> <<>>]
            [] k = 4 -> LET o == IF last[t] = <<>> THEN Z ELSE last[t] IN [f |-> "cas", x |-> Plus(o, One), y |-> o, r |-> <<>>] IN
  S' = [S EXCEPT !.p[t] = q] /\ UNCHANGED <<prog, start, rets, last>>
Effect == \E X \in Lin(S) : S' = X /\ UNCHANGED <<prog, start, rets, last>>
Ret(t) == S.p[t].f = "done" /\
  LET k == Head(prog[t]) o == IF last[t] = <<>> THEN Z ELSE last[t] again == k = 4 /\ S.p[t].r # o IN
  /\ S' = [S EXCEPT !.p[t] = Idle] /\ rets' = Append(rets, <<k, S.p[t].r>>) /\ UNCHANGED start
  /\ IF again THEN last' = [last EXCEPT ![t] = S.p[t].r] /\ UNCHANGED prog ELSE last' = [last EXCEPT ![t] = <<>>] /\ prog' = [prog EXCEPT ![t] = Tail(@)]
Next == Effect \/ \E t \in T : Call(t) \/ Ret(t)
Done == \A t \in T : prog[t] = <<>> /\ S.p[t] = Idle
RECURSIVE Total(_)
Total(t) == IF t > NT THEN 0 ELSE Len(start[t]) + Total(t + 1)
OnlyInc == \A t \in T : \A i \in 1 .. Len(start[t]) : start[t][i] \in {1, 4}
\* increments are never lost, and adds return distinct values
Counted == Done /\ OnlyInc => S.v = <<Total(1), 0>>
OnlyAdd == \A t \in T : \A i \in 1 .. Len(start[t]) : start[t][i] = 1
Distinct == OnlyAdd => \A i, j \in 1 .. Len(rets) : i # j => rets[i][2] # rets[j][2]
\* a compare-exchange from the initial value wins once
OnlyCas == \A t \in T : \A i \in 1 .. Len(start[t]) : start[t][i] = 3
OneWinner == OnlyCas => \A i, j \in 1 .. Len(rets) : i # j => ~(rets[i][2] = Z /\ rets[j][2] = Z)
RECURSIVE Flat(_)
Flat(t) == IF t > NT THEN <<>> ELSE <<Len(prog[t])>> \o prog[t] \o Flat(t + 1)
Emit == S = InitA(Z, NT) /\ prog = start => PrintT(<<"GEN", <<NT>> \o Flat(1)>>)
=============================================================================
