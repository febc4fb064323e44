------------------------------- MODULE ItoaMC -------------------------------
(* The digit texts are canonical and parse back to the value, in each base,   *)
(* for values round every limb and digit boundary.                            *)
EXTENDS Itoa, TLC
CONSTANT N
VARIABLES i, k, sh
\* the word 2^k * base-ish boundaries: 2^k - 1 - i .. 2^k + i  represented as limbs
Pow2(e) == [j \in 1 .. 4 |-> IF e \div 16 = j - 1 THEN 2^(e % 16) ELSE 0]
RECURSIVE AddW(_, _, _)
AddW(w, d, j) == IF j > 4 THEN w ELSE LET x == w[j] + d IN AddW([w EXCEPT ![j] = x % 65536], IF x < 0 THEN -1 ELSE x \div 65536, j + 1)
Word == AddW(IF k = 64 THEN W0 ELSE Pow2(k), sh, 1)
Init == i = 0 /\ k = 0 /\ sh = -N
Next == /\ i' = i /\ ((sh < N /\ sh' = sh + 1 /\ k' = k) \/ (sh = N /\ k < 64 /\ k' = k + 1 /\ sh' = -N))
RoundTrip == \A b \in {2, 10, 16} : LET d == Digits(Word, b) IN
   /\ ToWord(d, b, W0) = Word
   /\ (Len(d) > 1 => d[1] # 0)
   /\ \A x \in 1 .. Len(d) : d[x] \in 0 .. b - 1
Emit == PrintT(<<"GEN", Word>>)
=============================================================================
