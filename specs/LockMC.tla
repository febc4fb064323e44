------------------------------- MODULE LockMC -------------------------------
(* Every program of NT threads with up to NO operations: 1 section, 2 scoped  *)
(* section, 3 scoped section left by an exception, 4 wait, 5/6 notify one     *)
(* with/without the lock, 7 notify all.                                       *)
EXTENDS Lock, TLC
CONSTANTS NT, NO, SP
VARIABLES prog, S, hist
vars == <<prog, S, hist>>
T == 1 .. NT
Progs == UNION {[1 .. n -> {1, 4, 5, 6, 7}] : n \in 0 .. NO}
Init == /\ prog \in [T -> Progs] /\ (\A t \in T : t < NT => Len(prog[t]) >= Len(prog[t + 1])) /\ S = InitL(NT, SP) /\ hist = <<0, 0>>
Do(x) == S' = x
\* what each thread may do next
Begin(t) == prog[t] # <<>> /\ S.pc[t] = "idle" /\ S.nt[t] = "" /\ IF Head(prog[t]) \in {6, 7} THEN Do([S EXCEPT !.nt[t] = IF Head(prog[t]) = 6 THEN "one" ELSE "all"]) ELSE Do([S EXCEPT !.pc[t] = "want"])
Got(t) == S.pc[t] \in {"got", "got2"} /\ Do([S EXCEPT !.pc[t] = IF @ = "got" /\ Head(prog[t]) = 4 THEN "w0" ELSE "in"])
InDo(t) == S.pc[t] = "in" /\ IF Head(prog[t]) = 5 /\ S.nt[t] = "" THEN Do([S EXCEPT !.nt[t] = "one"]) ELSE S.nt[t] \in {"", "done"} /\ Do([S EXCEPT !.nt[t] = "", !.pc[t] = "leave"])
Out(t) == (S.pc[t] = "left" \/ (S.pc[t] = "idle" /\ S.nt[t] = "done")) /\ Do([S EXCEPT !.pc[t] = "idle", !.nt[t] = ""])
Next == \/ \E t \in T : ((Begin(t) \/ Got(t) \/ InDo(t)) /\ UNCHANGED prog) /\ UNCHANGED hist
        \/ \E t \in T : Out(t) /\ prog' = [prog EXCEPT ![t] = Tail(@)] /\ UNCHANGED hist
        \/ (\E x \in Inner(S) : S' = x) /\ UNCHANGED <<prog, hist>>
Holding(t) == S.pc[t] \in {"got", "in", "leave", "w0", "got2"}
Mutual == \A t \in T : Holding(t) <=> S.own = t
\* if nothing can happen, only condition waits are left
Progress == (~ENABLED Next) => S.own = 0 /\ \A t \in T : S.pc[t] \in {"sleep", "idle"} /\ (S.pc[t] = "idle" => prog[t] = <<>>)
RECURSIVE Flat(_)
Flat(t) == IF t > NT THEN <<>> ELSE <<Len(prog[t])>> \o prog[t] \o Flat(t + 1)
Emit == S = InitL(NT, SP) => PrintT(<<"GEN", <<NT>> \o Flat(1)>>)
=============================================================================
