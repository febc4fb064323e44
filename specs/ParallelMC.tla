----------------------------- MODULE ParallelMC ------------------------------
(* The loop: contiguous shares, one thread per share, all joined; the body    *)
(* may ask to stop or throw at one index. Every behaviour is accepted by the  *)
(* specification of P24, and the shares cover each index once.                *)
EXTENDS Parallel, TLC
CONSTANTS NMAX, TMAX
VARIABLES n, tn, bad, how, S, pc, th, nxt
vars == <<n, tn, bad, how, S, pc, th, nxt>>
E0 == IF tn < n THEN tn ELSE n
Share(t) == LET q == n \div E0 r == n % E0 b == t * q + (IF t < r THEN t ELSE r) IN [b |-> b, e |-> b + q + (IF t < r THEN 1 ELSE 0)]
Init == /\ n \in 0 .. NMAX /\ tn \in 1 .. TMAX /\ bad \in 0 .. n /\ how \in {"ok", "stop", "throw"} /\ (how = "ok" <=> bad = n)
        /\ S = {InitP(n, tn)} /\ pc = "start" /\ th = [t \in 0 .. TMAX - 1 |-> "none"] /\ nxt = [t \in 0 .. TMAX - 1 |-> 0]
See(e) == S' = UNION {Step(s, e) : s \in S}
Start == pc = "start" /\ IF n = 0 THEN pc' = "end" /\ See([op |-> "end", thrown |-> FALSE]) /\ UNCHANGED <<th, nxt>>
         ELSE pc' = "run" /\ th' = [t \in 0 .. TMAX - 1 |-> IF t < E0 THEN "idle" ELSE "fin"] /\ nxt' = [t \in 0 .. TMAX - 1 |-> IF t < E0 THEN Share(t).b ELSE 0] /\ UNCHANGED S
Call(t) == pc = "run" /\ th[t] = "idle" /\ IF nxt[t] < Share(t).e THEN th' = [th EXCEPT ![t] = "in"] /\ See([op |-> "call", i |-> nxt[t], t |-> t]) ELSE th' = [th EXCEPT ![t] = "fin"] /\ UNCHANGED S
Ret(t) == th[t] = "in" /\ LET h == IF nxt[t] = bad THEN how ELSE "ok" IN See([op |-> "ret", i |-> nxt[t], t |-> t, how |-> h]) /\ th' = [th EXCEPT ![t] = IF h = "ok" THEN "idle" ELSE "fin"] /\ nxt' = [nxt EXCEPT ![t] = @ + 1]
End == pc = "run" /\ (\A t \in 0 .. TMAX - 1 : th[t] = "fin") /\ pc' = "end" /\ See([op |-> "end", thrown |-> how = "throw"])
Next == \/ Start /\ UNCHANGED <<n, tn, bad, how>>
        \/ \E t \in 0 .. TMAX - 1 : (Call(t) /\ UNCHANGED <<n, tn, bad, how, pc, nxt>>) \/ (Ret(t) /\ UNCHANGED <<n, tn, bad, how, pc>>)
        \/ End /\ UNCHANGED <<n, tn, bad, how, th, nxt>>
Accept == S # {}
Cover == n > 0 => \A i \in 0 .. n - 1 : Cardinality({t \in 0 .. E0 - 1 : Share(t).b <= i /\ i < Share(t).e}) = 1
AllDone == pc = "end" /\ how = "ok" => \A s \in S : s.done = 0 .. n - 1
Emit == pc = "start" => PrintT(<<"GEN", <<n, tn, bad, IF how = "ok" THEN 0 ELSE IF how = "stop" THEN 1 ELSE 2>>>>)
=============================================================================
