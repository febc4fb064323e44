------------------------------- MODULE TlsMC --------------------------------
(* Every history of up to N operations of NT threads on NS slots. hist holds  *)
(* what was done; a read is explained by the thread's own last store since    *)
(* the slot and the thread came into being.                                   *)
EXTENDS Tls, TLC
CONSTANTS NT, NS, N
VARIABLES S, hist
Ops == [op : {1, 2}, k : 1 .. NS, t : {1}] \cup [op : {3, 4}, k : 1 .. NS, t : 1 .. NT] \cup [op : {5}, k : {1}, t : 2 .. NT]
Ev(o) == CASE o.op = 1 -> [op |-> "new", k |-> o.k, hard |-> FALSE] [] o.op = 2 -> [op |-> "del", k |-> o.k]
  [] o.op = 3 -> [op |-> "set", k |-> o.k, t |-> o.t, x |-> Len(hist) + 1, hard |-> FALSE, r |-> TRUE]
  [] o.op = 4 -> [op |-> "get", k |-> o.k, t |-> o.t, r |-> IF S.s[o.k].st = "ok" THEN S.s[o.k].v[o.t] ELSE 0]
  [] o.op = 5 -> [op |-> "exit", t |-> o.t]
Init == S = InitT(NT, NS) /\ hist = <<>>
Next == /\ Len(hist) < N
        /\ \E o \in Ops : (o.op \in {3, 4} => S.s[o.k].st = "ok") /\ S' \in Step(S, Ev(o)) /\ hist' = Append(hist, o)
\* the value a thread sees, from the history alone
RECURSIVE Seen(_, _, _)
Seen(i, k, t) == IF i = 0 THEN 0 ELSE LET o == hist[i] IN
   IF o.op \in {1, 2} /\ o.k = k THEN 0 ELSE IF o.op = 5 /\ o.t = t THEN 0 ELSE IF o.op = 3 /\ o.k = k /\ o.t = t THEN i ELSE Seen(i - 1, k, t)
Private == \A k \in 1 .. NS : S.s[k].st = "ok" => \A t \in 1 .. NT : S.s[k].v[t] = Seen(Len(hist), k, t)
\* one thread's store is seen nowhere else
Isolated == \A k, l \in 1 .. NS, t, u \in 1 .. NT : (S.s[k].st = "ok" /\ S.s[l].st = "ok" /\ <<k, t>> # <<l, u>> /\ S.s[k].v[t] # 0) => S.s[k].v[t] # S.s[l].v[u]
RECURSIVE Flat(_)
Flat(i) == IF i > Len(hist) THEN <<>> ELSE <<hist[i].op, hist[i].k, hist[i].t>> \o Flat(i + 1)
Emit == (Len(hist) = N) => PrintT(<<"GEN", Flat(1)>>)
=============================================================================
