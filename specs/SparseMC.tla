------------------------------ MODULE SparseMC ------------------------------
(* The compressed table and the merge iterators as the library builds them,   *)
(* scaled down: 2 + 2 + 2 + 2 bits instead of 6 + 8 + 8 + 8.  Walking the     *)
(* encoded bytes yields the appended positions after every history of         *)
(* appends (also refused ones), walks (which leave a sentinel) and clears;    *)
(* the merge walk of every two vectors yields intersection and union.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NPush, Gaps, P
VARIABLES mode, enc, last, dummy, abs, n, va, vb
vars == <<mode, enc, last, dummy, abs, n, va, vb>>
Code(d) == IF d < 4 THEN <<<<0, d>>>> ELSE IF d < 16 THEN <<<<1, d % 4>>, <<9, d \div 4>>>> ELSE IF d < 64 THEN <<<<2, d % 4>>, <<9, (d \div 4) % 4>>, <<9, d \div 16>>>>
           ELSE <<<<3, d % 4>>, <<9, (d \div 4) % 4>>, <<9, (d \div 16) % 4>>, <<9, d \div 64>>>>
Big == 256
SortedSeq(A) == LET RECURSIVE Go(_) Go(B) == IF B = {} THEN <<>> ELSE LET m == CHOOSE x \in B : \A y \in B : x <= y IN <<m>> \o Go(B \ {m}) IN Go(A)
Init == /\ enc = <<>> /\ last = 0 /\ dummy = FALSE /\ abs = <<>> /\ n = 0
        /\ \/ mode = "enc" /\ va = <<>> /\ vb = <<>>
           \/ mode = "merge" /\ \E A \in SUBSET (0 .. P - 1), B \in SUBSET (0 .. P - 1) : va = SortedSeq(A) /\ vb = SortedSeq(B)
Trim == IF dummy THEN SubSeq(enc, 1, Len(enc) - 1) ELSE enc
Push(pos) == /\ n < NPush /\ n' = n + 1 /\ dummy' = FALSE
             /\ IF (Trim # <<>> /\ pos <= last) \/ pos - last >= Big \/ pos < last THEN enc' = Trim /\ UNCHANGED <<last, abs>>
                ELSE enc' = Trim \o Code(pos - last) /\ last' = pos /\ abs' = Append(abs, pos)
Walk == ~dummy /\ dummy' = TRUE /\ enc' = Append(enc, <<0, 0>>) /\ UNCHANGED <<last, abs, n>>
Clear == abs # <<>> /\ n < NPush /\ n' = n + 1 /\ enc' = <<>> /\ last' = 0 /\ dummy' = FALSE /\ abs' = <<>>
Next == mode = "enc" /\ UNCHANGED <<mode, va, vb>> /\ (Walk \/ Clear \/ \E g \in Gaps : Push(last + g - 1))   \* gaps are given plus one
At(i) == IF i <= Len(enc) THEN enc[i] ELSE <<100, 100>>      \* beyond the sentinel: never used
\* setup(): the difference at i and the next i
Dec(i) == LET t == At(i)[1] IN [d |-> At(i)[2] + (IF t >= 1 THEN At(i + 1)[2] * 4 ELSE 0) + (IF t >= 2 THEN At(i + 2)[2] * 16 ELSE 0) + (IF t >= 3 THEN At(i + 3)[2] * 64 ELSE 0), i |-> i + t + 1]
RECURSIVE WalkFrom(_, _, _)
WalkFrom(i, v, k) == IF k = Len(abs) THEN <<>> ELSE LET d == Dec(i) IN <<v + d.d>> \o WalkFrom(d.i, v + d.d, k + 1)
Decodes == (mode = "enc" /\ dummy) => WalkFrom(1, 0, 0) = abs
\* the step past the last element decodes the sentinel, not beyond
RECURSIVE EndAt(_, _)
EndAt(i, k) == IF k = 0 THEN i ELSE EndAt(Dec(i).i, k - 1)
Sentinel == (mode = "enc" /\ dummy) => EndAt(1, Len(abs)) = Len(enc)
\* --- merge iterators
RECURSIVE Skip(_, _, _, _)
\* intersection: from (i, j), both inside, to the next common position or the end
Skip(a, b, i, j) == IF i > Len(a) \/ j > Len(b) THEN <<>> ELSE IF a[i] = b[j] THEN <<i, j>> ELSE IF a[i] < b[j] THEN Skip(a, b, i + 1, j) ELSE Skip(a, b, i, j + 1)
RECURSIVE Inter(_, _, _, _)
Inter(a, b, i, j) == LET s == Skip(a, b, i, j) IN IF s = <<>> THEN <<>> ELSE <<a[s[1]]>> \o Inter(a, b, s[1] + 1, s[2])
RECURSIVE Uni(_, _, _, _)
Uni(a, b, i, j) == IF i > Len(a) /\ j > Len(b) THEN <<>>
  ELSE IF j > Len(b) \/ (i <= Len(a) /\ a[i] < b[j]) THEN <<<<a[i], 1>>>> \o Uni(a, b, i + 1, j)
  ELSE IF i > Len(a) \/ b[j] < a[i] THEN <<<<b[j], 2>>>> \o Uni(a, b, i, j + 1) ELSE <<<<a[i], 3>>>> \o Uni(a, b, i + 1, j + 1)
Ran(s) == {s[i] : i \in 1 .. Len(s)}
Merges == mode = "merge" =>
  /\ Inter(va, vb, 1, 1) = SortedSeq(Ran(va) \cap Ran(vb))
  /\ LET u == Uni(va, vb, 1, 1) IN [i \in 1 .. Len(u) |-> u[i][1]] = SortedSeq(Ran(va) \cup Ran(vb)) /\ \A i \in 1 .. Len(u) : u[i][2] = (IF u[i][1] \notin Ran(vb) THEN 1 ELSE IF u[i][1] \notin Ran(va) THEN 2 ELSE 3)
Emit == mode = "merge" => PrintT(<<"GEN", <<Len(va)>> \o va \o vb>>)
=============================================================================
