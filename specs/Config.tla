------------------------------- MODULE Config -------------------------------
(* P14: configuration texts. A configuration is a set of section names (the   *)
(* global section is <<>>) and a set of entries <<section, name, value>>.     *)
EXTENDS NumText, FiniteSets
LF == 10
CR == 13
Empty == [secs |-> {}, ents |-> {}]
NameChar(c) == c \in 48 .. 57 \/ c \in 65 .. 90 \/ c \in 97 .. 122 \/ c = 95
IsName(s) == s # <<>> /\ \A i \in 1 .. Len(s) : NameChar(s[i])
RECURSIVE SplitLF(_)
SplitLF(t) == LET p == FirstIn(t, 1, {LF}) IN
  IF p > Len(t) THEN (IF t = <<>> THEN <<>> ELSE <<t>>) ELSE <<SubSeq(t, 1, p - 1)>> \o SplitLF(SubSeq(t, p + 1, Len(t)))
ChopCR(l) == IF l # <<>> /\ l[Len(l)] = CR THEN SubSeq(l, 1, Len(l) - 1) ELSE l
RECURSIVE TrimSp(_)
TrimSp(s) == IF s # <<>> /\ s[Len(s)] \in {32, 9} THEN TrimSp(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* classify one line: [k |-> "skip"] / [k |-> "sec", n] / [k |-> "ent", n, v] / [k |-> "bad"]
Classify(l) ==
  IF l = <<>> \/ l[1] \in {59, 35} THEN [k |-> "skip", n |-> <<>>, v |-> <<>>]
  ELSE IF l[1] = 91 THEN
    (IF Len(l) >= 3 /\ l[Len(l)] = 93 /\ IsName(SubSeq(l, 2, Len(l) - 1)) THEN [k |-> "sec", n |-> SubSeq(l, 2, Len(l) - 1), v |-> <<>>]
     ELSE [k |-> "bad", n |-> <<>>, v |-> <<>>])
  ELSE LET p == FirstIn(l, 1, {61}) IN
    IF p > Len(l) THEN [k |-> "bad", n |-> <<>>, v |-> <<>>]
    ELSE LET n == TrimSp(SubSeq(l, 1, p - 1)) v == SubSeq(l, p + 1, Len(l)) IN
      IF IsName(n) /\ \A i \in 1 .. Len(v) : v[i] # CR THEN [k |-> "ent", n |-> n, v |-> v]
      ELSE [k |-> "bad", n |-> <<>>, v |-> <<>>]
Has(C, s, n) == \E e \in C.ents : e[1] = s /\ e[2] = n
ValueOf(C, s, n) == (CHOOSE e \in C.ents : e[1] = s /\ e[2] = n)[3]
RECURSIVE Lines(_, _, _)
Lines(C, sec, ls) ==   \* [ok, c]
  IF ls = <<>> THEN [ok |-> TRUE, c |-> C]
  ELSE LET x == Classify(ChopCR(ls[1])) IN
    CASE x.k = "skip" -> Lines(C, sec, Tail(ls))
      [] x.k = "sec" -> Lines([C EXCEPT !.secs = @ \cup {x.n}], x.n, Tail(ls))
      [] x.k = "ent" /\ ~Has(C, sec, x.n) -> Lines([C EXCEPT !.ents = @ \cup {<<sec, x.n, x.v>>}], sec, Tail(ls))
      [] OTHER -> [ok |-> FALSE, c |-> C]
Load(C, text) == Lines([C EXCEPT !.secs = @ \cup {<<>>}], <<>>, SplitLF(text))
NoGlobal(C) == [C EXCEPT !.secs = @ \ {<<>>}]
SetOf(s) == {s[i] : i \in 1 .. Len(s)}

Dumped(e) == [secs |-> SetOf(e.secs), ents |-> SetOf(e.ents)]
Step(C, e) ==
  CASE e.op = "load" -> LET r == Load(C, e.text) IN IF e.ok = r.ok THEN {r.c} ELSE {}   \* a failed load ends the session
    [] e.op = "addSec" -> LET ok == e.s = <<>> \/ IsName(e.s) IN IF e.ok = ok THEN {IF ok THEN [C EXCEPT !.secs = @ \cup {e.s}] ELSE C} ELSE {}
    [] e.op = "add" -> LET ok == IsName(e.n) /\ ~Has(C, e.s, e.n) IN
                       IF e.ok = ok THEN {IF ok THEN [C EXCEPT !.ents = @ \cup {<<e.s, e.n, e.v>>}] ELSE C} ELSE {}
    [] e.op = "dump" -> IF Dumped(e) = C /\ Len(e.secs) = Cardinality(C.secs) /\ Len(e.ents) = Cardinality(C.ents) THEN {C} ELSE {}
    \* printed text denotes the configuration
    [] e.op = "str" -> LET r == Load(Empty, e.text) IN IF r.ok /\ NoGlobal(r.c) = NoGlobal(C) THEN {C} ELSE {}
    \* printed text read back by the code itself
    [] e.op = "reload" -> IF e.ok /\ NoGlobal(Dumped(e)) = NoGlobal(C) THEN {C} ELSE {}
    [] e.op = "hasSec" -> IF e.found = (e.s \in C.secs) /\ e.thrown = ~(e.s \in C.secs) THEN {C} ELSE {}
    [] e.op = "query" -> IF e.found = Has(C, e.s, e.n) /\ (e.found => e.v = ValueOf(C, e.s, e.n)) THEN {C} ELSE {}
    \* text value with or without default
    [] e.op = "getStr" -> LET h == Has(C, e.s, e.n) IN
         IF /\ e.ok = (h \/ e.hasDef)
            /\ (e.ok => e.v = (IF h THEN ValueOf(C, e.s, e.n) ELSE e.def)) THEN {C} ELSE {}
    [] e.op = "getInt" -> LET h == Has(C, e.s, e.n)
                              w == ParseDec(ValueOf(C, e.s, e.n), IF e.sg THEN SMax(e.bits) ELSE UMax(e.bits), SMin(e.bits), e.sg) IN
         IF h THEN (IF e.ok = w.ok /\ (w.ok => e.neg = w.neg /\ e.abs = ToWord(w.m, 10, W0)) THEN {C} ELSE {})
         ELSE (IF e.ok = e.hasDef /\ (e.ok => ~e.neg /\ e.abs = <<77, 0, 0, 0>>) THEN {C} ELSE {})
    [] e.op = "putSec" -> LET ok == e.s = <<>> \/ IsName(e.s) IN   \* the section becomes exactly the one given
         IF e.ok # ok THEN {} ELSE IF ~ok THEN {C} ELSE {[secs |-> C.secs \cup {e.s}, ents |-> {x \in C.ents : x[1] # e.s} \cup SetOf(e.ents)]}
    [] e.op = "nofile" -> IF e.thrown THEN {C} ELSE {}
    [] OTHER -> {}
=============================================================================
