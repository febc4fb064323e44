------------------------------- MODULE ProcMC -------------------------------
(* Every history of up to N operations of NP process objects.                 *)
EXTENDS Proc, TLC
CONSTANTS NP, NC, N
VARIABLES S, hist
\* 1 start, 2 start what cannot be started, 3 child k ends with code, 4 is it alive, 5 hand over
Ops == [op : {1, 2, 4}, p : 1 .. NP, q : {0}] \cup [op : {3}, p : 1 .. NC, q : {0, 7}] \cup [op : {5}, p : 1 .. NP, q : 1 .. NP]
Alive(p) == LET k == S.h[p] IN [op |-> "alive", p |-> p, r |-> k # 0 /\ S.c[k].st = "running", code |-> IF k # 0 /\ S.c[k].st = "ended" THEN S.c[k].code ELSE 0]
Ev(o) == CASE o.op \in {1, 2} -> [op |-> "run", p |-> o.p, exe |-> <<47>>, kind |-> IF o.op = 1 THEN "good" ELSE "missing", hard |-> FALSE, via |-> "vec", args |-> <<>>, null |-> TRUE, shut |-> 3, ok |-> o.op = 1, leak |-> 0,
                                  argv |-> <<<<47>>>>, fds |-> <<>>, std |-> <<"null", "null", "null">>, envs |-> S.env]
  [] o.op = 3 -> [op |-> "ends", k |-> o.p, code |-> o.q]
  [] o.op = 4 -> Alive(o.p)
  [] o.op = 5 -> [op |-> "move", p |-> o.p, q |-> o.q]
Enabled(o) == CASE o.op = 1 -> Len(S.c) < NC [] o.op = 3 -> o.p <= Len(S.c) /\ S.c[o.p].st = "running" [] o.op = 5 -> S.h[o.q] = 0 \/ o.p = o.q [] OTHER -> TRUE
Init == S = InitP(NP, 1) /\ hist = <<>>
Next == /\ Len(hist) < N
        /\ \E o \in Ops : Enabled(o) /\ S' \in Step(S, Ev(o)) /\ hist' = Append(hist, o)
One == Owned(S)
\* a child is held exactly when the history since its start handed it on and never replaced it
RECURSIVE Holder(_, _)
Holder(k, i) == \* who holds child k after the first i operations, 0: nobody
  IF i = 0 THEN 0 ELSE LET w == Holder(k, i - 1) o == hist[i] nth == Cardinality({j \in 1 .. i : hist[j].op = 1}) IN
  IF o.op = 1 /\ nth = k THEN o.p ELSE IF w = 0 THEN 0 ELSE IF o.op \in {1, 2} /\ o.p = w THEN 0 ELSE IF o.op = 5 /\ o.p = w THEN o.q ELSE w
Held == \A k \in 1 .. Len(S.c) : \A p \in 1 .. NP : (S.h[p] = k) = (Holder(k, Len(hist)) = p)
\* the end of a child is told once
Ended == \A k \in 1 .. Len(S.c) : (S.c[k].st = "running") = (\A i \in 1 .. Len(hist) : hist[i].op = 3 => hist[i].p # k)
RECURSIVE Flat(_)
Flat(i) == IF i > Len(hist) THEN <<>> ELSE <<hist[i].op, hist[i].p, hist[i].q>> \o Flat(i + 1)
Emit == (Len(hist) = N) => PrintT(<<"GEN", Flat(1)>>)
=============================================================================
