------------------------------- MODULE StrOp -------------------------------
(* P19: trim, split, case folding, search. u: TRUE for Unicode strings, FALSE *)
(* for byte strings (white space of byte strings is blank and tab).           *)
EXTENDS Bytes
USpace == (9 .. 13) \cup {32, 133, 160, 5760, 6158, 8232, 8233, 8239, 8287, 12288, 65279} \cup (8192 .. 8202)
BSpace == {32, 9}
Sp(e) == CASE e.sp = "std" -> (IF e.u THEN USpace ELSE BSpace) [] e.sp = "x" -> {120, 46}     \* a user supplied predicate
RECURSIVE LTrim(_, _)
LTrim(s, X) == IF s # <<>> /\ s[1] \in X THEN LTrim(Tail(s), X) ELSE s
RECURSIVE RTrim(_, _)
RTrim(s, X) == IF s # <<>> /\ s[Len(s)] \in X THEN RTrim(SubSeq(s, 1, Len(s) - 1), X) ELSE s
TrimS(s, X) == RTrim(LTrim(s, X), X)
Lo(c) == IF c \in 65 .. 90 THEN c + 32 ELSE c
Up(c) == IF c \in 97 .. 122 THEN c - 32 ELSE c
LoS(s) == [i \in 1 .. Len(s) |-> Lo(s[i])]
UpS(s) == [i \in 1 .. Len(s) |-> Up(s[i])]
Cmp(x, y) == LET n == Min2(Len(x), Len(y)) D == {i \in 1 .. n : x[i] # y[i]} IN
  IF D = {} THEN (IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE 0)
  ELSE LET d == CHOOSE i \in D : \A j \in D : i <= j IN IF x[d] < y[d] THEN -1 ELSE 1
FindS(s, p) == LET X == {i \in 0 .. Len(s) - Len(p) : Slice(s, i, Len(p)) = p} IN IF X = {} THEN -1 ELSE CHOOSE i \in X : \A j \in X : i <= j
RECURSIVE SplitS(_, _, _)
SplitS(s, c, max) == LET k == FirstIn(s, 1, {c}) IN
  IF k > Len(s) \/ max = 1 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o SplitS(SubSeq(s, k + 1, Len(s)), c, max - 1)
Join(ps, c) == LET RECURSIVE J(_)
                   J(i) == IF i = Len(ps) THEN ps[i] ELSE ps[i] \o <<c>> \o J(i + 1) IN IF ps = <<>> THEN <<>> ELSE J(1)
Step(S, e) ==
  LET R(b) == IF b THEN {S} ELSE {} IN
  CASE e.op = "trim" -> R(e.r = TrimS(e.s, Sp(e)))
    [] e.op = "skip" -> R(e.r = Len(e.s) - Len(LTrim(e.s, Sp(e))))
    [] e.op = "space" -> R(e.r = (e.c \in Sp(e)))
    [] e.op = "lower" -> R(e.r = e.pre \o LoS(e.s))
    [] e.op = "upper" -> R(e.r = e.pre \o UpS(e.s))
    [] e.op = "strip" -> R(e.r = RTrim(e.s, {10, 13}))
    [] e.op = "cmp" -> R(e.r = Cmp(LoS(e.s), LoS(e.p)))
    [] e.op = "eq" -> R(e.r = (LoS(e.s) = LoS(e.p)))
    [] e.op = "starts" -> R(e.r = IsPrefixOf(LoS(e.p), LoS(e.s)))
    [] e.op = "find" -> R(e.r = FindS(LoS(e.s), LoS(e.p)))
    [] e.op = "split" -> R(e.r = e.pre \o SplitS(e.s, e.c, e.max) /\ e.n = Len(e.r) - Len(e.pre))
    [] OTHER -> {}
=============================================================================
