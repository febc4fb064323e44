------------------------------ MODULE RunnerMC ------------------------------
(* The runner step by step (counters, a module stopped by an exception, the   *)
(* rest goes on) refines the verdict defined over whole modules, for every    *)
(* small program; programs are handed to the real runner.                     *)
EXTENDS Runner, TLC
CONSTANTS Kinds, Len1, Len2
VARIABLES mods, m, i, ok, ng, ex, done
vars == <<mods, m, i, ok, ng, ex, done>>
Seqs(n) == UNION {[1 .. k -> Kinds] : k \in 0 .. n}
Init == mods \in {<<a, b>> : a \in Seqs(Len1), b \in Seqs(Len2)} /\ m = 1 /\ i = 1 /\ ok = 0 /\ ng = 0 /\ ex = 0 /\ done = FALSE
Next == ~done /\ UNCHANGED mods /\
  IF m > Len(mods) THEN done' = TRUE /\ UNCHANGED <<m, i, ok, ng, ex>>
  ELSE IF i > Len(mods[m]) THEN m' = m + 1 /\ i' = 1 /\ UNCHANGED <<ok, ng, ex, done>>
  ELSE IF Throws(mods[m][i]) THEN m' = m + 1 /\ i' = 1 /\ ex' = ex + 1 /\ UNCHANGED <<ok, ng, done>>
  ELSE i' = i + 1 /\ ok' = ok + Ok(mods[m][i]) /\ ng' = ng + Ng(mods[m][i]) /\ UNCHANGED <<m, ex, done>>
Right == done => LET r == RunAll(mods, 1) IN ok = r.ok /\ ng = r.ng /\ ex = r.ex
Bounded == ok + ng + ex <= 3 * (Len(mods[1]) + Len(mods[2]))
\* success exactly when every action that was reached passed
Reached(x) == {j \in 1 .. Len(x) : \A k \in 1 .. j - 1 : ~Throws(x[k])}
VerdictMeans == done => ((ng + ex = 0) <=> \A q \in 1 .. 2 : \A j \in Reached(mods[q]) : Ng(mods[q][j]) = 0 /\ ~Throws(mods[q][j]))
KindNo(k) == CHOOSE n \in 1 .. 5 : <<<<"assert1">>, <<"fail">>, <<"throw">>, <<"throwint">>, <<"arr", 3, 1>>>>[n] = k
Emit == (~done /\ m = 1 /\ i = 1) => PrintT(<<"GEN", [j \in 1 .. Len(mods[1]) |-> KindNo(mods[1][j])] \o <<0>> \o [j \in 1 .. Len(mods[2]) |-> KindNo(mods[2][j])]>>)
K5 == {<<"assert1">>, <<"fail">>, <<"throw">>, <<"throwint">>, <<"arr", 3, 1>>}
=============================================================================
