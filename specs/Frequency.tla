------------------------------ MODULE Frequency ------------------------------
(* P10: a multiset of symbols ranked by frequency. Symbols are 0 .. K-1 (the  *)
(* driver maps them to the element type). Two tables: 1 and 2 (copy, load).   *)
EXTENDS Bytes, FiniteSets
K == 8
Zero == [x \in 0 .. K - 1 |-> 0]
InitQ == [c |-> <<Zero, Zero>>, ok |-> <<TRUE, TRUE>>]   \* ok: indexed since the last addition
RECURSIVE AddAll(_, _)
AddAll(f, xs) == IF xs = <<>> THEN f ELSE AddAll([f EXCEPT ![xs[1]] = @ + 1], Tail(xs))
Present(f) == {x \in 0 .. K - 1 : f[x] > 0}
\* a dump after indexing: elems[i] = getElement(i-1), idx[i] = getIndex(elems[i])
ValidTable(f, elems, idx) ==
  /\ Len(elems) = Cardinality(Present(f))
  /\ {elems[i] : i \in 1 .. Len(elems)} = Present(f)
  /\ \A i \in 1 .. Len(elems) - 1 : f[elems[i]] >= f[elems[i + 1]]
  /\ \A i \in 1 .. Len(elems) : idx[i] = i - 1
Step(S, e) ==
  CASE e.op = "append" -> {[c |-> [S.c EXCEPT ![e.t] = AddAll(@, <<e.x>>)], ok |-> [S.ok EXCEPT ![e.t] = FALSE]]}
    [] e.op = "init" -> {[c |-> [S.c EXCEPT ![e.t] = AddAll(@, e.xs)], ok |-> [S.ok EXCEPT ![e.t] = TRUE]]}
    [] e.op = "construct" -> {[c |-> [S.c EXCEPT ![e.t] = AddAll(Zero, e.xs)], ok |-> [S.ok EXCEPT ![e.t] = TRUE]]}
    [] e.op = "ready" -> {[S EXCEPT !.ok[e.t] = TRUE]}
    [] e.op = "clear" -> {[c |-> [S.c EXCEPT ![e.t] = Zero], ok |-> [S.ok EXCEPT ![e.t] = TRUE]]}
    [] e.op = "copy" -> {[c |-> [S.c EXCEPT ![e.to] = S.c[e.t]], ok |-> [S.ok EXCEPT ![e.to] = S.ok[e.t]]]}
    [] e.op = "saveload" -> IF e.ok THEN {[c |-> [S.c EXCEPT ![e.to] = S.c[e.t]], ok |-> [S.ok EXCEPT ![e.to] = S.ok[e.t]]]} ELSE {}
    [] e.op = "freqs" -> IF \A x \in 0 .. K - 1 : e.f[x + 1] = S.c[e.t][x] THEN {S} ELSE {}
    [] e.op = "table" -> IF S.ok[e.t] => ValidTable(S.c[e.t], e.elems, e.idx) THEN {S} ELSE {}
    [] e.op = "badElem" -> IF e.thrown THEN {S} ELSE {}     \* getElement past the end / getIndex of an absent symbol (general types)
    [] OTHER -> {}
=============================================================================
