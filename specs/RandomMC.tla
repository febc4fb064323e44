------------------------------ MODULE RandomMC ------------------------------
(* Published first outputs, a generator's period is no shorter than the walk, *)
(* draws of every width come from one sequence, and Fisher-Yates with every   *)
(* sequence of choices gives each arrangement once.                           *)
EXTENDS Random, TLC
CONSTANTS N, NP
VARIABLES k, st, n, perm, hist
vars == <<k, st, n, perm, hist>>
Seed(g) == CASE g = "xs" -> XsInit(<<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>) [] g = "pcg" -> <<<<1016, 11310, 1720, 6231>>>>
  [] OTHER -> <<<<52501, 1883, 0, 0>>, <<26801, 15070, 0, 0>>>>
Init == k \in {"xs", "xp", "xo", "pcg", "shuffle"} /\ st = (IF k = "shuffle" THEN <<>> ELSE Seed(k)) /\ n = 0 /\ perm = (IF k = "shuffle" THEN [i \in 1 .. NP |-> i] ELSE <<>>) /\ hist = <<>>
Swap(p, i, j) == [p EXCEPT ![i] = p[j], ![j] = p[i]]
Next == \/ /\ k # "shuffle" /\ n < N /\ st' = Native(k, st).st /\ n' = n + 1 /\ UNCHANGED <<k, perm, hist>>
        \/ /\ k = "shuffle" /\ n < NP - 1 /\ \E r \in n + 1 .. NP : perm' = Swap(perm, n + 1, r) /\ hist' = Append(hist, r - n - 1)
           /\ n' = n + 1 /\ UNCHANGED <<k, st>>
\* xorshift128 with Marsaglia's seeds begins 3701687786, 458299110
Known == (k = "xs" /\ n = 0) => Native(k, st).out = <<17898, 56483>> /\ Native(k, Native(k, st).st).out = <<5862, 6993>>
Moves == k # "shuffle" => Native(k, st).st # Seed(k)
OneSequence == k # "shuffle" =>
   /\ SubSeq(Draw(k, st, 9).out, 1, 5) = Draw(k, st, 5).out
   /\ LEB(Get32(k, st).out) = LEB(Low(Native(k, st).out))
   /\ k # "pcg" => SubSeq(Draw(k, st, 8).out, 1, 4) = LEB(Get32(k, st).out)
Permutes == k = "shuffle" => {perm[i] : i \in 1 .. NP} = 1 .. NP
\* different choices give different arrangements: with NP! sequences of choices each arrangement comes once (TLC would merge equal arrangements otherwise: hist tells them apart)
RECURSIVE Undo(_, _)
Undo(p, i) == IF i = 0 THEN p ELSE Undo(Swap(p, i, i + hist[i]), i - 1)
Injective == k = "shuffle" => Undo(perm, n) = [i \in 1 .. NP |-> i]
Emit == (k = "shuffle" /\ n = NP - 1) => PrintT(<<"GEN", hist>>)
=============================================================================
