---------------------------- MODULE ThreadObjMC -----------------------------
(* The handle of one object is taken by an atomic exchange; clients join,     *)
(* detach and finally the owner destroys, while the body runs. Programs: the  *)
(* owner's operations (1 start, 2 join, 3 detach) and one per other client;   *)
(* self: the body detaches its own thread.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NO
VARIABLES prog, self, pc, hold, hdl, body, rel, runs, starts
vars == <<prog, self, pc, hold, hdl, body, rel, runs, starts>>
C == 1 .. 3
Init == /\ prog \in {p \in [C -> UNION {[1 .. k -> 1 .. 3] : k \in 0 .. NO}] :
                       /\ Len(p[2]) <= 1 /\ Len(p[3]) <= 1 /\ (\A c \in {2, 3} : \A i \in 1 .. Len(p[c]) : p[c][i] # 1)
                       /\ Len(p[1]) > 0 /\ p[1][1] = 1 /\ \A i \in 2 .. Len(p[1]) : p[1][i] # 1}
        /\ self \in BOOLEAN /\ pc = [c \in 0 .. 3 |-> "idle"] /\ hold = [c \in 0 .. 3 |-> 0] /\ hdl = 0 /\ body = "none" /\ rel = 0 /\ runs = 0 /\ starts = 0
Start == pc[1] = "idle" /\ prog[1] # <<>> /\ prog[1][1] = 1 /\ hdl' = 1 /\ body' = "new" /\ starts' = 1 /\ prog' = [prog EXCEPT ![1] = Tail(@)] /\ UNCHANGED <<self, pc, hold, rel, runs>>
Ready == starts = 1
Take(c) == Ready /\ pc[c] = "idle" /\ prog[c] # <<>> /\ prog[c][1] # 1 /\ hold' = [hold EXCEPT ![c] = hdl] /\ hdl' = 0 /\ pc' = [pc EXCEPT ![c] = IF prog[c][1] = 2 THEN "join" ELSE "detach"] /\ UNCHANGED <<prog, self, body, rel, runs, starts>>
Done(c) == pc' = [pc EXCEPT ![c] = "idle"] /\ hold' = [hold EXCEPT ![c] = 0] /\ prog' = [prog EXCEPT ![c] = Tail(@)]
Release(c) == pc[c] \in {"join", "detach"} /\ c # 0 /\ (IF hold[c] = 0 THEN rel' = rel ELSE (pc[c] = "join" => body = "fin") /\ rel' = rel + 1) /\ Done(c) /\ UNCHANGED <<self, hdl, body, runs, starts>>
Body == \/ body = "new" /\ body' = "run" /\ runs' = runs + 1 /\ UNCHANGED <<prog, self, pc, hold, hdl, rel, starts>>
        \/ body = "run" /\ self /\ pc[0] = "idle" /\ hold' = [hold EXCEPT ![0] = hdl] /\ hdl' = 0 /\ pc' = [pc EXCEPT ![0] = "took"] /\ UNCHANGED <<prog, self, body, rel, runs, starts>>
        \/ body = "run" /\ pc[0] = "took" /\ rel' = rel + (IF hold[0] = 0 THEN 0 ELSE 1) /\ pc' = [pc EXCEPT ![0] = "fin"] /\ UNCHANGED <<prog, self, hold, hdl, body, runs, starts>>
        \/ body = "run" /\ (self => pc[0] = "fin") /\ body' = "fin" /\ UNCHANGED <<prog, self, pc, hold, hdl, rel, runs, starts>>
Destroy == Ready /\ pc[1] = "idle" /\ (\A c \in C : prog[c] = <<>> /\ pc[c] = "idle") /\ body = "fin" /\ pc' = [pc EXCEPT ![1] = "gone"] /\ rel' = rel + hdl /\ hdl' = 0 /\ UNCHANGED <<prog, self, hold, body, runs, starts>>
Next == Start \/ (\E c \in C : Take(c) \/ Release(c)) \/ Body \/ Destroy
Once == rel <= 1 /\ runs <= 1
Released == pc[1] = "gone" => rel = 1 /\ runs = 1
RECURSIVE Flat(_)
Flat(c) == IF c > 3 THEN <<>> ELSE <<Len(prog[c])>> \o prog[c] \o Flat(c + 1)
Emit == starts = 0 => PrintT(<<"GEN", <<IF self THEN 1 ELSE 0>> \o Flat(1)>>)
=============================================================================
