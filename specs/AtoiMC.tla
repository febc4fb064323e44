------------------------------- MODULE AtoiMC -------------------------------
(* The accumulate-with-threshold algorithm (with its separate comparison for  *)
(* the minimum) accepts exactly the texts of ParseDec, for a type with range  *)
(* -28 .. 27 (signed) and 0 .. 26 (unsigned), for every text up to N          *)
(* characters. The texts are replayed on the real types.                      *)
EXTENDS Atoi, TLC
CONSTANT N
VARIABLE text
Alpha == {45, 48, 49, 50, 53, 54, 55, 56, 120, 0}    \* - 0 1 2 5 6 7 8 x NUL
Init == text = <<>>
Next == Len(text) < N /\ \E c \in Alpha : text' = Append(text, c)
Get(i) == IF i <= Len(text) THEN text[i] ELSE 0
RECURSIVE SkipZ(_)
SkipZ(i) == IF Get(i) = 48 THEN SkipZ(i + 1) ELSE i
RECURSIVE Acc(_, _, _, _)
Acc(i, x, o1, o2) == IF Get(i) = 0 THEN x
  ELSE IF ~IsDigit(Get(i)) \/ x > o1 \/ (x = o1 /\ Get(i) >= o2) THEN -1
  ELSE Acc(i + 1, x * 10 + (Get(i) - 48), o1, o2)
Bad == [ok |-> FALSE, v |-> 0]
AlgoS == IF Get(1) = 0 THEN Bad
  ELSE LET minus == Get(1) = 45 i == IF minus THEN 2 ELSE 1 IN
    IF Get(i) = 0 THEN Bad
    ELSE LET j == SkipZ(i) IN
      IF minus /\ Get(j) = 50 /\ Get(j + 1) = 56 /\ Get(j + 2) = 0 THEN [ok |-> TRUE, v |-> -28]
      ELSE LET x == Acc(j, 0, 2, 56) IN IF x < 0 THEN Bad ELSE [ok |-> TRUE, v |-> IF minus THEN -x ELSE x]
AlgoU == IF Get(1) = 0 THEN Bad
  ELSE LET x == Acc(SkipZ(1), 0, 2, 55) IN IF x < 0 THEN Bad ELSE [ok |-> TRUE, v |-> x]
Val(w) == LET m == IF w.m = <<>> THEN 0 ELSE IF Len(w.m) = 1 THEN w.m[1] ELSE w.m[1] * 10 + w.m[2] IN IF w.neg THEN -m ELSE m
Same(a, w) == a.ok = w.ok /\ (w.ok => a.v = Val(w))
SignedOk == Same(AlgoS, ParseDec(text, <<2, 7>>, <<2, 8>>, TRUE))
UnsignedOk == Same(AlgoU, ParseDec(text, <<2, 6>>, <<>>, FALSE))
Emit == PrintT(<<"GEN", <<Len(text)>> \o text>>)
=============================================================================
