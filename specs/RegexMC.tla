------------------------------- MODULE RegexMC ------------------------------
(* All small expressions against all texts of up to N characters over {a, b}. *)
(* The preferred match is compared with the language of the expression, given *)
(* as the set of ends a match may have - a definition without preferences.    *)
EXTENDS Regex, TLC
CONSTANTS N, Rs
VARIABLES p, s
A == [t |-> "c", c |-> 97]
B == [t |-> "c", c |-> 98]
D == [t |-> "dot"]
NotA == [t |-> "set", neg |-> TRUE, r |-> <<<<97, 97>>>>]
Atoms == <<A, B, D, NotA>>
Reps == <<<<1, 1, FALSE>>, <<0, -1, FALSE>>, <<1, -1, FALSE>>, <<0, 1, FALSE>>, <<0, -1, TRUE>>, <<1, -1, TRUE>>, <<0, 1, TRUE>>, <<2, 2, FALSE>>, <<1, 2, FALSE>>>>
Rep(x, r) == IF r = 1 THEN x ELSE [t |-> "rep", x |-> x, lo |-> Reps[r][1], hi |-> Reps[r][2], lazy |-> Reps[r][3]]
\* p = <<shape, atom, atom, rep, rep, atom>>
Expr(q) == LET x == Rep(Atoms[q[2]], q[4]) y == Rep(Atoms[q[3]], q[5]) z == Atoms[q[6]] g(n, v) == [t |-> "grp", n |-> n, x |-> v] IN
  CASE q[1] = 1 -> [t |-> "seq", l |-> <<g(1, x), g(2, y), z>>]
    [] q[1] = 2 -> [t |-> "seq", l |-> <<g(1, [t |-> "alt", l |-> <<[t |-> "seq", l |-> <<Atoms[q[2]], z>>], Atoms[q[3]]>>]), Rep(z, q[5]), g(2, Rep(Atoms[q[2]], q[4]))>>]
    [] q[1] = 3 -> [t |-> "seq", l |-> <<Rep(g(1, [t |-> "seq", l |-> <<Atoms[q[2]], Atoms[q[6]]>>]), q[4]), g(2, y)>>]
    [] q[1] = 4 -> [t |-> "alt", l |-> <<[t |-> "seq", l |-> <<[t |-> "bol"], g(1, x), z>>], [t |-> "seq", l |-> <<g(2, y), z, [t |-> "eol"]>>]>>]
Pars == (1 .. 4) \X (1 .. 4) \X (1 .. 4) \X Rs \X {1, 2, 5, 7} \X {1, 2}
Init == p \in Pars /\ s = <<>>
Next == Len(s) < N /\ \E c \in {97, 98} : s' = Append(s, c) /\ UNCHANGED p
X == Expr(p)
\* ends of matches of x beginning at i: the language
RECURSIVE Ends(_, _)
Ends(x, i) ==
  CASE x.t \in {"c", "dot", "set"} -> IF i <= Len(s) /\ Accepts(x, s[i], FALSE) THEN {i + 1} ELSE {}
    [] x.t = "seq" -> IF x.l = <<>> THEN {i} ELSE UNION {Ends([x EXCEPT !.l = Tail(@)], j) : j \in Ends(x.l[1], i)}
    [] x.t = "alt" -> UNION {Ends(x.l[k], i) : k \in DOMAIN x.l}
    [] x.t = "grp" -> Ends(x.x, i)
    [] x.t = "rep" -> (IF x.lo = 0 THEN {i} ELSE {}) \cup
         (IF x.hi = 0 THEN {} ELSE UNION {Ends([x EXCEPT !.lo = IF @ > 0 THEN @ - 1 ELSE 0, !.hi = IF @ > 0 THEN @ - 1 ELSE @], j) : j \in Ends(x.x, i)})
    [] x.t = "bol" -> IF i = 1 THEN {i} ELSE {}
    [] x.t = "eol" -> IF i = Len(s) + 1 THEN {i} ELSE {}
Full == FullMatch(X, 2, s, FALSE, NoFlags).ok = (Len(s) + 1 \in Ends(X, 1))
Leftmost == LET a == Search(X, 2, s, FALSE, 1, NoFlags) IN
  IF a.ok THEN a.e \in Ends(X, a.b) /\ \A j \in 1 .. a.b - 1 : Ends(X, j) = {} ELSE \A j \in 1 .. Len(s) + 1 : Ends(X, j) = {}
\* groups lie within the match
Inside == LET a == Search(X, 2, s, FALSE, 1, NoFlags) IN a.ok => \A k \in 1 .. 2 : a.caps[k][1] = 0 \/ (a.b <= a.caps[k][1] /\ a.caps[k][1] <= a.caps[k][2] /\ a.caps[k][2] <= a.e)
NonEmptyX == \A j \in 1 .. Len(s) + 1 : j \notin Ends(X, j)
\* putting each match in its own place changes nothing; matches and what lies between make up the text
RECURSIVE Cat(_, _)
Cat(l, i) == IF i > Len(l) THEN <<>> ELSE l[i] \o Cat(l, i + 1)
Same == NonEmptyX => LET ms == AllFrom(X, 2, s, FALSE, 1, NoFlags) IN Replaced(s, ms, <<-1>>, FALSE, TRUE) = s /\ Cat(Tok(s, ms, <<-1, 0>>, 1, 1), 1) = s
Emit == (Len(s) = N) => PrintT(<<"GEN", p \o s>>)
=============================================================================
