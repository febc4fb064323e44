------------------------------- MODULE FMIndex -------------------------------
(* P09: a text and the occurrences of patterns in it.                         *)
EXTENDS Bytes, FiniteSets
InitF == [text |-> <<>>]
Occurs(t, p, i) == i + Len(p) <= Len(t) /\ \A k \in 1 .. Len(p) : t[i + k] = p[k]
Occ(t, p) == IF p = <<>> THEN {} ELSE {i \in 0 .. Len(t) - Len(p) : Occurs(t, p, i)}
SetOf(s) == {s[i] : i \in 1 .. Len(s)}
Step(S, e) ==
  CASE e.op = "init" -> IF e.ok = (Cardinality(SetOf(e.text)) <= e.maxSyms) THEN {[text |-> IF e.ok THEN e.text ELSE <<>>]} ELSE {}
    [] e.op = "badskip" -> IF e.thrown THEN {S} ELSE {}
    [] e.op = "saveload" -> IF e.ok THEN {S} ELSE {}
    [] e.op = "query" ->      \* pos: positions of the reported range, one per row
         LET o == Occ(S.text, e.pat) IN
         IF /\ e.found = (o # {}) /\ Len(e.pos) = Cardinality(o) /\ SetOf(e.pos) = o THEN {S} ELSE {}
    [] e.op = "prev" ->       \* the at most n symbols before the occurrence at position p
         IF /\ e.p \in 0 .. Len(S.text)
            /\ e.str = SubSeq(S.text, Max2(1, e.p - e.n + 1), e.p) THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
