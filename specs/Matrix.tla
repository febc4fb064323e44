--------------------------------- MODULE Matrix --------------------------------
(* P46: matrix and vector files, and the steps of the decomposition.          *)
(* Matrices are sequences of rows. Numbers of files are given in quarters;    *)
(* orthonormal columns in units of 1/F.                                       *)
EXTENDS Integers, Sequences, FiniteSets
F == 4000
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
\* ---- header: up to five words; the last two are numbers or something else ([n |-> ..] or [x |-> ..])
Word(e, i) == IF i <= Len(e.head) THEN e.head[i] ELSE ""
Num(e, i) == IF i <= Len(e.dims) THEN e.dims[i] ELSE 0      \* 0: no number there
HeadOf(e) ==
  IF Word(e, 1) # "#" \/ Num(e, 1) <= 0 \/ Word(e, 3) \notin {"S", "D"} THEN [ok |-> FALSE]
  ELSE IF Word(e, 2) = "M" THEN (IF Num(e, 2) <= 0 THEN [ok |-> FALSE] ELSE [ok |-> TRUE, mat |-> TRUE, sparse |-> Word(e, 3) = "S", row |-> Num(e, 1), col |-> Num(e, 2)])
  ELSE IF Word(e, 2) = "V" THEN [ok |-> TRUE, mat |-> FALSE, sparse |-> Word(e, 3) = "S", row |-> Num(e, 1), col |-> 1]
  ELSE [ok |-> FALSE]
No == [ok |-> FALSE]
\* ---- dense: numbers, wherever the line ends are; what is not a number ends them
RECURSIVE Numbers(_)
Numbers(w) == IF w = <<>> \/ w[1].bad THEN <<>> ELSE <<w[1].v>> \o Numbers(Tail(w))
Dense(e, h) == LET d == Numbers(Flat(e.body)) IN
  IF Len(d) < h.row * h.col THEN No
  ELSE [ok |-> TRUE, m |-> [i \in 1 .. h.row |-> [j \in 1 .. h.col |-> d[(i - 1) * h.col + j]]]]
\* ---- sparse: one line per row, entries column:number; the first thing that is no entry ends the line
RECURSIVE Entries(_, _, _)
Entries(w, row, col) == IF w = <<>> \/ w[1].bad THEN [ok |-> TRUE, r |-> row]
  ELSE IF w[1].sep # ":" \/ w[1].c \notin 0 .. col - 1 THEN No
  ELSE Entries(Tail(w), [row EXCEPT ![w[1].c + 1] = w[1].v], col)
Sparse(e, h) == IF Len(e.body) < h.row THEN No
  ELSE LET rs == [i \in 1 .. h.row |-> Entries(e.body[i], [j \in 1 .. h.col |-> 0], h.col)] IN
  IF \E i \in 1 .. h.row : ~rs[i].ok THEN No ELSE [ok |-> TRUE, m |-> [i \in 1 .. h.row |-> rs[i].r]]
Load(e) == LET h == HeadOf(e) IN
  IF ~h.ok THEN No
  ELSE IF e.as = "vector" THEN (IF h.mat THEN No ELSE Dense(e, h))
  ELSE IF ~h.mat THEN No
  ELSE IF h.sparse THEN Sparse(e, h)
  ELSE IF e.as = "sparse" THEN No ELSE Dense(e, h)
\* ---- writing: header, then one line per row
NonZero(r, z) == SelectSeq([j \in 1 .. Len(r) |-> <<j - 1, r[j]>>], LAMBDA x : x[2] # 0 \/ x[1] \in z)
Saved(e) == LET n == Len(e.m) IN
  IF e.as = "vector" THEN e.head = <<"#", "V", "D">> /\ e.dims = <<n>> /\ e.body = [i \in 1 .. n |-> <<e.m[i][1]>>]
  ELSE IF e.as = "matrix" THEN e.head = <<"#", "M", "D">> /\ e.dims = <<n, Len(e.m[1])>> /\ e.body = e.m
  ELSE e.head = <<"#", "M", "S">> /\ e.dims = <<n, Len(e.m[1])>> /\ e.body = [i \in 1 .. n |-> NonZero(e.m[i], {})]
\* ---- the steps: rows are dealt to columns evenly, columns are added up in even groups
Unit(row, col) == [i \in 1 .. row |-> [j \in 1 .. col |-> IF ((i - 1) * col) \div row = j - 1 THEN 1 ELSE 0]]
Cut(j, col, r) == Min2((j * col + r - 1) \div r, col)
Compressed(m, r) == [i \in 1 .. Len(m) |-> [j \in 1 .. r |-> Sum(SubSeq(m[i], Cut(j - 1, Len(m[i]), r) + 1, Cut(j, Len(m[i]), r)))]]
Col(m, j) == [i \in 1 .. Len(m) |-> m[i][j]]
Dot(a, b) == Sum([i \in 1 .. Len(a) |-> a[i] * b[i]])
Near(x, y, tol) == Abs(x - y) <= tol
IsZero(c) == \A i \in DOMAIN c : c[i] = 0
Tol == 100 * F             \* of F * F
Orthonormal(cs) == \A i, j \in DOMAIN cs : Near(Dot(cs[i], cs[j]), IF i = j THEN F * F ELSE 0, Tol)
\* orthonormal or zero columns that span, column by column, what the columns of m span
Ortho(m, q) == LET n == Len(m[1])
                   cs == [j \in 1 .. n |-> Col(q, j)]
                   live == SelectSeq(cs, LAMBDA c : ~IsZero(c)) IN
  /\ Orthonormal(live)
  /\ \A j \in 1 .. n : LET a == Col(m, j) IN \A i \in 1 .. Len(m) :
       Near(Sum([k \in 1 .. j |-> Dot(cs[k], a) * cs[k][i]]), a[i] * F * F, (F * F) \div 10)
\* A V = U S, descending S, orthonormal U and V where S is not 0; U S V' = A when there are as many columns as rows of A
Svd(e) == LET r == Min2(e.rank, Min2(Len(e.a), Len(e.a[1]))) IN
  IF r <= 0 THEN ~e.ok
  ELSE /\ e.ok /\ Len(e.s) = r /\ Len(e.u[1]) = r /\ Len(e.v[1]) = r /\ Len(e.u) = Len(e.a) /\ Len(e.v) = Len(e.a[1])
       /\ \A i \in 1 .. r - 1 : e.s[i] >= e.s[i + 1]
       /\ e.s[r] >= 0
       /\ LET live == {i \in 1 .. r : e.s[i] > 2}
              n == Cardinality(live) IN
          /\ Orthonormal([i \in 1 .. n |-> Col(e.u, i)]) /\ Orthonormal([i \in 1 .. n |-> Col(e.v, i)])
          /\ \A i \in 1 .. r : \A k \in 1 .. Len(e.a) : Near(Dot(e.a[k], Col(e.v, i)) * 100, e.s[i] * e.u[k][i], F * 5)
          /\ (r = Len(e.a) => \A k \in 1 .. Len(e.a) : \A j \in 1 .. Len(e.a[1]) :
               Near(Sum([i \in 1 .. r |-> ((e.s[i] * e.u[k][i]) \div 100) * e.v[j][i]]), e.a[k][j] * F * F, (F * F) \div 10))
InitM == [z |-> 0]
Step(S, e) ==
  CASE e.op = "load" -> LET r == Load(e) IN IF r.ok = e.ok /\ (r.ok => r.m = e.m) THEN {S} ELSE {}
    [] e.op = "save" -> IF e.ok /\ Saved(e) THEN {S} ELSE {}
    [] e.op = "nofile" -> IF ~e.ok THEN {S} ELSE {}
    [] e.op = "unit" -> IF e.m = Unit(e.row, e.col) THEN {S} ELSE {}
    [] e.op = "compress" -> IF e.r = Compressed(e.m, e.n) THEN {S} ELSE {}
    [] e.op = "ortho" -> IF Ortho(e.m, e.q) THEN {S} ELSE {}
    [] e.op = "svd" -> IF Svd(e) THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
