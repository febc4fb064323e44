-------------------------------- MODULE Bytes --------------------------------
(* Helpers on byte sequences (1-based sequences; offsets 0-based).            *)
EXTENDS Integers, Sequences
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* n elements from 0-based offset p
Slice(s, p, n) == SubSeq(s, p + 1, p + n)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
IsSuffixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>>
              ELSE IF Len(ss) = 1 THEN ss[1]
              ELSE LET h == Len(ss) \div 2 IN Concat(SubSeq(ss, 1, h)) \o Concat(SubSeq(ss, h + 1, Len(ss)))
\* first 1-based index >= p whose element is in the set X, or Len(s)+1
RECURSIVE FirstIn(_, _, _)
FirstIn(s, p, X) == IF p > Len(s) THEN Len(s) + 1 ELSE IF s[p] \in X THEN p ELSE FirstIn(s, p + 1, X)
\* last 1-based index <= p whose element is in the set X, or 0
RECURSIVE LastIn(_, _, _)
LastIn(s, p, X) == IF p = 0 THEN 0 ELSE IF s[p] \in X THEN p ELSE LastIn(s, p - 1, X)
Without(s, X) == SelectSeq(s, LAMBDA c : c \notin X)
=============================================================================
