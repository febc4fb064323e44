------------------------------ MODULE FMIndexMC ------------------------------
(* Backward search over the Burrows-Wheeler transform, and the walk to a      *)
(* sampled suffix, find exactly the occurrences: every text over A symbols up *)
(* to N long, every pattern up to M long, every sampling step.                *)
EXTENDS FMIndex, TLC
CONSTANTS N, A, M
VARIABLE text
Init == text = <<>>
Next == Len(text) < N /\ \E c \in 1 .. A : text' = Append(text, c)
S0 == Append(text, 0)
n == Len(S0)
RECURSIVE Less(_, _)
Less(i, j) == IF i = j THEN FALSE ELSE IF S0[i] # S0[j] THEN S0[i] < S0[j] ELSE Less(i + 1, j + 1)
\* SA[r] (0-based start) of the r-th smallest suffix, r = 0 .. n-1
SA == [r \in 0 .. n - 1 |-> (CHOOSE i \in 1 .. n : Cardinality({j \in 1 .. n : Less(j, i)}) = r) - 1]
\* a fixed memo of the derived tables for one state
Check ==
  LET sa == SA
      bwt == [r \in 0 .. n - 1 |-> IF sa[r] > 0 THEN S0[sa[r]] ELSE S0[n]]
      CF(c) == Cardinality({i \in 1 .. n : S0[i] < c})
      Rk(c, p) == Cardinality({r \in 0 .. p - 1 : bwt[r] = c})
      LFm(r) == CF(bwt[r]) + Rk(bwt[r], r)
      F[pat \in UNION {[1 .. k -> 1 .. A] : k \in 0 .. M}] ==
         IF pat = <<>> THEN <<0, n>>
         ELSE LET be == F[Tail(pat)] c == pat[1] IN
              IF be[1] >= be[2] THEN be ELSE <<CF(c) + Rk(c, be[1]), CF(c) + Rk(c, be[2])>>
      Conv[skip \in 1 .. 3, r \in 0 .. n - 1, t \in 0 .. n] ==
         IF sa[r] % skip = 0 THEN t + sa[r] ELSE Conv[skip, LFm(r), t + 1]
  IN /\ \A pat \in UNION {[1 .. k -> 1 .. A] : k \in 1 .. M} :
          LET be == F[pat] IN {sa[r] : r \in be[1] .. be[2] - 1} = Occ(text, pat)
                              /\ (be[2] > be[1] => be[2] - be[1] = Cardinality(Occ(text, pat)))
     /\ \A skip \in 1 .. 3 : \A r \in 0 .. n - 1 : Conv[skip, r, 0] = sa[r]
Emit == PrintT(<<"GEN", <<Len(text)>> \o text>>)
=============================================================================
