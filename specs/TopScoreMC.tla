----------------------------- MODULE TopScoreMC -----------------------------
(* Insertion, by definition and as the library does it on a fixed array that  *)
(* a look may shrink, yields the best entries for every sequence of scores.   *)
EXTENDS TopScore, TLC
CONSTANTS N, MaxScore, Caps
VARIABLES cap, h, t, arr, sz, looks
vars == <<cap, h, t, arr, sz, looks>>
No == <<-1, -1>>
Fill(a, n) == [i \in 1 .. n |-> IF i <= Len(a) THEN a[i] ELSE No]
Init == cap \in Caps /\ h = <<>> /\ t = <<>> /\ arr = Fill(<<>>, cap) /\ sz = 0 /\ looks = <<>>
\* the array algorithm
AddArr(x) == IF cap = 0 \/ (sz = cap /\ x[1] <= arr[sz][1]) THEN UNCHANGED <<arr, sz>> ELSE
  LET a == Fill(arr, cap) W == {i \in 1 .. sz : x[1] > a[i][1]} p == IF W = {} THEN sz + 1 ELSE CHOOSE i \in W : \A j \in W : i <= j IN
  /\ arr' = [i \in 1 .. cap |-> IF i = p THEN x ELSE IF i > p THEN a[i - 1] ELSE a[i]] /\ sz' = IF sz < cap THEN sz + 1 ELSE sz
Add == Len(h) < N /\ \E s \in 0 .. MaxScore : LET x == <<s, Len(h) + 1>> IN h' = Append(h, x) /\ t' = Insert(t, cap, x) /\ AddArr(x) /\ UNCHANGED <<cap, looks>>
Look == looks = <<>> /\ arr' = SubSeq(arr, 1, sz) /\ looks' = <<Len(h)>> /\ UNCHANGED <<cap, h, t, sz>>
Next == Add \/ Look
Right == t = Best(h, cap) /\ SubSeq(arr, 1, sz) = t
Ordered == \A i \in 1 .. Len(t) - 1 : t[i][1] > t[i + 1][1] \/ (t[i][1] = t[i + 1][1] /\ t[i][2] < t[i + 1][2])
Emit == (Len(h) = N /\ looks # <<>>) => PrintT(<<"GEN", <<cap, looks[1]>> \o [i \in 1 .. N |-> h[i][1]]>>)
=============================================================================
