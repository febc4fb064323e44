-------------------------------- MODULE Path --------------------------------
(* P23: file names and directory listings.                                    *)
EXTENDS Bytes, FiniteSets
DOT == 46
SLASH == 47
BSLASH == 92
HasExt(n, x) == x = <<>> \/ IsSuffixOf(<<DOT>> \o x, n)
Split(n) == LET d == LastIn(n, Len(n), {DOT}) IN
  IF d = 0 THEN [base |-> n, suf |-> <<>>] ELSE [base |-> SubSeq(n, 1, d - 1), suf |-> SubSeq(n, d + 1, Len(n))]
Slashes(n) == [i \in 1 .. Len(n) |-> IF n[i] = BSLASH THEN SLASH ELSE n[i]]
\* the directory (with its slash) and name of a program file; .exe is dropped from the name
Exe(p) == LET s == LastIn(p, Len(p), {SLASH}) n == SubSeq(p, s + 1, Len(p)) IN
  [dir |-> SubSeq(p, 1, s), base |-> IF Split(n).suf = <<101, 120, 101>> THEN Split(n).base ELSE n]
(* a directory: set of [n |-> name, k |-> kind] *)
Pick(D, x) == {d \in D : HasExt(d.n, x)}
ToSet(s) == {s[i] : i \in 1 .. Len(s)}
Step(D, e) ==
  CASE e.op = "has" -> IF e.r = HasExt(e.n, e.x) THEN {D} ELSE {}
    [] e.op = "split" -> IF [base |-> e.base, suf |-> e.suf] = Split(e.n) /\ e.base1 = e.base THEN {D} ELSE {}
    [] e.op = "slash" -> IF e.r = Slashes(e.n) THEN {D} ELSE {}
    [] e.op = "exe" -> IF [dir |-> e.dir, base |-> e.base] = Exe(e.p) THEN {D} ELSE {}
    [] e.op = "mk" -> {D \cup {[n |-> e.n, k |-> e.k]}}
    [] e.op = "rm" -> {{d \in D : d.n # e.n}}
    [] e.op = "list" -> \* each entry once, behind what the list held before
         IF ~e.there THEN (IF ~e.ok THEN {D} ELSE {})
         ELSE LET got == SubSeq(e.l, Len(e.before) + 1, Len(e.l)) IN
              IF e.ok /\ SubSeq(e.l, 1, Len(e.before)) = e.before
                 /\ Len(got) = Cardinality(Pick(D, e.x)) /\ ToSet(got) = Pick(D, e.x) THEN {D} ELSE {}
    [] e.op = "exist" -> IF e.r = (e.p \in {<<SLASH>>, <<DOT>>, <<DOT, SLASH>>} \/ \E d \in D : d.k # 3 /\ (e.p = d.n \/ e.p = d.n \o <<SLASH>>)) THEN {D} ELSE {}
    [] OTHER -> {}
=============================================================================
