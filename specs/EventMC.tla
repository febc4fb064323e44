------------------------------ MODULE EventMC -------------------------------
(* The algorithm: a flag under a mutex, a condition variable (with arbitrary  *)
(* choice of the woken waiter and spurious wakeups), for every program of NT  *)
(* threads with up to NO operations each. Checked against the abstract event. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS NT, NO, SP
VARIABLES prog, pc, flag, own, woken, given, taken, spur
vars == <<prog, pc, flag, own, woken, given, taken, spur>>
T == 1 .. NT
Progs == UNION {[1 .. n -> {"w", "s"}] : n \in 0 .. NO}
Init == /\ prog \in [T -> Progs] /\ \A t \in T : t < NT => Len(prog[t]) >= Len(prog[t + 1])
        /\ pc = [t \in T |-> "idle"] /\ flag = FALSE /\ own = 0 /\ woken = {} /\ given = 0 /\ taken = 0 /\ spur = SP
Op(t) == Head(prog[t])
Start(t) == pc[t] = "idle" /\ prog[t] # <<>> /\ pc' = [pc EXCEPT ![t] = "lock"] /\ UNCHANGED <<prog, flag, own, woken, given, taken, spur>>
Lock(t) == pc[t] = "lock" /\ own = 0 /\ own' = t /\ pc' = [pc EXCEPT ![t] = "in"] /\ UNCHANGED <<prog, flag, woken, given, taken, spur>>
Sleepers == {t \in T : pc[t] = "sleep" /\ t \notin woken}
Wake(t) == pc[t] = "in" /\ Op(t) = "s" /\ flag' = TRUE /\ given' = (IF flag THEN given ELSE given + 1) /\ pc' = [pc EXCEPT ![t] = "notify"] /\ UNCHANGED <<prog, own, woken, taken, spur>>
Notify(t) == pc[t] = "notify" /\ (IF Sleepers = {} THEN woken' = woken ELSE \E u \in Sleepers : woken' = woken \cup {u}) /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<prog, flag, own, given, taken, spur>>
Take(t) == pc[t] = "in" /\ Op(t) = "w" /\ flag /\ flag' = FALSE /\ taken' = taken + 1 /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<prog, own, woken, given, spur>>
Sleep(t) == pc[t] = "in" /\ Op(t) = "w" /\ ~flag /\ own' = 0 /\ pc' = [pc EXCEPT ![t] = "sleep"] /\ UNCHANGED <<prog, flag, woken, given, taken, spur>>
Rise(t) == pc[t] = "sleep" /\ t \in woken /\ pc' = [pc EXCEPT ![t] = "lock"] /\ woken' = woken \ {t} /\ UNCHANGED <<prog, flag, own, given, taken, spur>>
Spurious(t) == spur > 0 /\ t \in Sleepers /\ woken' = woken \cup {t} /\ spur' = spur - 1 /\ UNCHANGED <<prog, pc, flag, own, given, taken>>
Unlock(t) == pc[t] = "unlock" /\ own' = 0 /\ pc' = [pc EXCEPT ![t] = "idle"] /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<flag, woken, given, taken, spur>>
Next == \E t \in T : Start(t) \/ Lock(t) \/ Wake(t) \/ Notify(t) \/ Take(t) \/ Sleep(t) \/ Rise(t) \/ Spurious(t) \/ Unlock(t)
\* one wakeup per return, at most one remembered
Balance == given = taken + (IF flag THEN 1 ELSE 0)
\* a signalled event with a waiter always has somebody on the way
NoLoss == flag /\ (\A t \in T : pc[t] \in {"idle", "sleep"} /\ (pc[t] = "idle" => prog[t] = <<>>)) /\ woken = {} => \A t \in T : pc[t] # "sleep"
Mutual == \A t, u \in T : t # u => ~(pc[t] \in {"in", "notify", "unlock"} /\ pc[u] \in {"in", "notify", "unlock"})
Code(x) == IF x = "w" THEN 1 ELSE 2
RECURSIVE Flat(_)
Flat(t) == IF t > NT THEN <<>> ELSE <<Len(prog[t])>> \o [i \in 1 .. Len(prog[t]) |-> Code(prog[t][i])] \o Flat(t + 1)
Emit == (\A t \in T : pc[t] = "idle") /\ own = 0 /\ given = 0 /\ spur = SP => PrintT(<<"GEN", <<NT>> \o Flat(1)>>)
=============================================================================
