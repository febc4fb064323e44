----------------------------- MODULE FrequencyMC -----------------------------
(* Histories over a table of three symbols. The table built by sorting the    *)
(* counted symbols is a valid ranking in every reachable state.               *)
EXTENDS Frequency, TLC
CONSTANT N
VARIABLES hist, S
vars == <<hist, S>>
Ev(k) == CASE k \in 1 .. 3 -> [op |-> "append", t |-> 1, x |-> k - 1]
           [] k = 4 -> [op |-> "ready", t |-> 1]
           [] k = 5 -> [op |-> "saveload", t |-> 1, to |-> 2, ok |-> TRUE]
           [] k = 6 -> [op |-> "clear", t |-> 1]
           [] k = 7 -> [op |-> "copy", t |-> 1, to |-> 2]
           [] k = 8 -> [op |-> "copy", t |-> 2, to |-> 1]
Init == hist = <<>> /\ S = InitQ
Next == Len(hist) < N /\ \E k \in 1 .. 8 : hist' = Append(hist, k) /\ S' \in Step(S, Ev(k))
RECURSIVE Sorted(_, _)
Sorted(f, X) == IF X = {} THEN <<>> ELSE
   LET m == CHOOSE x \in X : \A y \in X : f[x] > f[y] \/ (f[x] = f[y] /\ x >= y) IN <<m>> \o Sorted(f, X \ {m})
TableOk == \A t \in 1 .. 2 : LET s == Sorted(S.c[t], Present(S.c[t])) IN ValidTable(S.c[t], s, [i \in 1 .. Len(s) |-> i - 1])
Total == \A t \in 1 .. 2 : \A x \in 0 .. K - 1 : S.c[t][x] <= Len(hist)
Emit == Len(hist) = N => PrintT(<<"GEN", hist>>)
=============================================================================
