-------------------------------- MODULE Xml --------------------------------
(* P16: escaping, and the tree of a document of the supported subset:         *)
(* header, elements, attributes, self-closing elements, one run of text per   *)
(* element. A text is classified                                              *)
(*   "ok"  - of the subset: the parser has to deliver exactly its tree        *)
(*   "bad" - unclosed, mismatched, or with a malformed tag or attribute:      *)
(*           the parser has to throw                                          *)
(*   "odd" - outside the subset (unusual names, comments, text after the      *)
(*           root, ...): the parser may accept or throw                       *)
(* The tree is the sequence of elements in document order with their depth.   *)
EXTENDS Bytes
LOCAL INSTANCE FiniteSets
Sp == {32, 9, 13, 10}
Quote == {34, 39}
NameCh == (48 .. 57) \cup (65 .. 90) \cup (97 .. 122) \cup {95, 58, 45, 46}
NotName == (0 .. 255) \ NameCh
SkipSp(s, p) == FirstIn(s, p, (0 .. 255) \ Sp)
At(s, p) == IF p <= Len(s) THEN s[p] ELSE -1
Ent(c) == CASE c = 38 -> <<38, 97, 109, 112, 59>> [] c = 60 -> <<38, 108, 116, 59>> [] c = 62 -> <<38, 103, 116, 59>>
            [] c = 39 -> <<38, 97, 112, 111, 115, 59>> [] c = 34 -> <<38, 113, 117, 111, 116, 59>> [] OTHER -> <<c>>
Special == {38, 60, 62, 39, 34}
Escape(s) == Concat([i \in 1 .. Len(s) |-> Ent(s[i])])
RECURSIVE UnescFrom(_, _, _)
UnescFrom(s, p, acc) ==
  IF p > Len(s) THEN [ok |-> TRUE, v |-> acc]
  ELSE IF s[p] # 38 THEN UnescFrom(s, p + 1, Append(acc, s[p]))
  ELSE LET X == {c \in Special : IsPrefixOf(Ent(c), SubSeq(s, p, Min2(Len(s), p + 5)))} IN
       IF X = {} THEN [ok |-> FALSE, v |-> <<>>]
       ELSE LET c == CHOOSE c \in X : TRUE IN UnescFrom(s, p + Len(Ent(c)), Append(acc, c))
Unescape(s) == UnescFrom(s, 1, <<>>)

Res(c, p) == [c |-> c, p |-> p, a |-> {}, self |-> FALSE]
\* attributes from p up to the end of the tag; a: set of <<key, value>>
RECURSIVE Attrs(_, _, _, _, _)
Attrs(s, p0, normal, a, glued) ==
  LET p == SkipSp(s, p0) c == At(s, p) IN
  IF c = -1 THEN Res("bad", p)
  ELSE IF normal /\ c = 62 THEN [c |-> "ok", p |-> p + 1, a |-> a, self |-> FALSE]
  ELSE IF c = (IF normal THEN 47 ELSE 63) THEN
    IF At(s, p + 1) = 62 THEN [c |-> "ok", p |-> p + 2, a |-> a, self |-> TRUE] ELSE Res("bad", p)
  ELSE LET k == FirstIn(s, p, Sp \cup Quote \cup {61})
           key == SubSeq(s, p, k - 1)
           q == SkipSp(s, k)
           r == SkipSp(s, q + 1)
           z == FirstIn(s, r + 1, {At(s, r)})
       IN IF key = <<>> \/ At(s, q) # 61 \/ At(s, r) \notin Quote \/ z > Len(s) THEN Res("bad", p)
          ELSE IF \/ \E i \in 1 .. Len(key) : key[i] \notin NameCh
                  \/ \E x \in a : x[1] = key
                  \/ (glued /\ p = p0)
                  \/ \E i \in r + 1 .. z - 1 : s[i] = 60 THEN Res("odd", p)
          ELSE Attrs(s, z + 1, normal, a \cup {<<key, SubSeq(s, r + 1, z - 1)>>}, TRUE)
Node(n, d, a) == [n |-> n, d |-> d, a |-> a, c |-> <<>>, k |-> 0]
Fin(c, nodes) == [c |-> c, nodes |-> nodes]
\* stk: indices of the open elements
RECURSIVE Body(_, _, _, _)
Body(s, p0, stk, nodes) ==
  IF stk = <<>> /\ nodes # <<>> THEN Fin(IF SkipSp(s, p0) > Len(s) THEN "ok" ELSE "odd", nodes)
  ELSE LET p == SkipSp(s, p0) c == At(s, p) IN
  IF c = -1 THEN Fin("bad", nodes)
  ELSE IF c # 60 THEN
    IF nodes = <<>> THEN Fin("bad", nodes)
    ELSE LET z == FirstIn(s, p, {60}) me == stk[Len(stk)] IN
         Body(s, z, stk, [nodes EXCEPT ![me].c = SubSeq(s, p, z - 1), ![me].k = @ + 1])
  ELSE LET isEnd == At(s, p + 1) = 47
           b == IF isEnd THEN p + 2 ELSE p + 1
           e == FirstIn(s, b, NotName)
           name == SubSeq(s, b, e - 1)
       IN IF e > Len(s) THEN Fin("bad", nodes)
          ELSE IF name = <<>> THEN Fin(IF At(s, e) \in Sp \cup {62} THEN "bad" ELSE "odd", nodes)
          ELSE IF isEnd THEN
            IF stk = <<>> THEN Fin("bad", nodes)
            ELSE IF At(s, e) # 62 THEN Fin("odd", nodes)
            ELSE IF nodes[stk[Len(stk)]].n # name THEN Fin("bad", nodes)
            ELSE Body(s, e + 1, SubSeq(stk, 1, Len(stk) - 1), nodes)
          ELSE IF At(s, e) \notin Sp \cup {62, 47} THEN Fin(IF At(s, e) \in Quote \cup {61} THEN "bad" ELSE "odd", nodes)
          ELSE LET t == Attrs(s, e, TRUE, {}, FALSE) IN
            IF t.c # "ok" THEN Fin(t.c, nodes)
            ELSE LET nn == Append(nodes, Node(name, Len(stk), t.a)) IN
                 Body(s, t.p, IF t.self THEN stk ELSE Append(stk, Len(nn)), nn)
Header == <<60, 63, 120, 109, 108>>
Parse(s) ==
  LET p == SkipSp(s, 1) h == SubSeq(s, p, Min2(Len(s), p + 4)) IN
  IF h # Header THEN Fin("bad", <<>>)
  ELSE IF At(s, p + 5) \notin Sp THEN Fin(IF p + 5 > Len(s) THEN "bad" ELSE "odd", <<>>)
  ELSE LET t == Attrs(s, p + 5, FALSE, {}, FALSE) IN IF t.c # "ok" THEN Fin(t.c, <<>>) ELSE Body(s, t.p, <<>>, <<>>)
RangeOf(f) == {f[i] : i \in 1 .. Len(f)}
SameNode(o, n) == /\ o.n = n.n /\ o.d = n.d
                  /\ Len(o.a) = Cardinality(n.a) /\ RangeOf(o.a) = n.a
                  /\ (n.k <= 1 => o.c = n.c)
SameTree(os, ns) == Len(os) = Len(ns) /\ \A i \in 1 .. Len(os) : SameNode(os[i], ns[i])
First(ns, nm) == LET X == {i \in 1 .. Len(ns) : ns[i].n = nm} IN IF X = {} THEN 0 ELSE CHOOSE i \in X : \A j \in X : i <= j
\* the state: the elements of the last parsed document
Step(S, e) ==
  CASE e.op = "esc" -> IF e.r = Escape(e.s) THEN {S} ELSE {}
    [] e.op = "unesc" -> LET u == Unescape(e.s) IN IF e.ok = u.ok /\ (u.ok => e.r = u.v) THEN {S} ELSE {}
    [] e.op = "parse" -> LET w == Parse(e.s) IN
         IF /\ (w.c = "ok" => e.ok) /\ (w.c = "bad" => ~e.ok)
            /\ (w.c = "ok" => SameTree(e.nodes, w.nodes) /\ e.parents)
         THEN {IF w.c = "ok" THEN w.nodes ELSE <<>>} ELSE {}
    [] e.op = "find" -> IF S = <<>> \/ e.r = First(S, e.n) THEN {S} ELSE {}
    [] e.op = "attr" -> IF S = <<>> THEN {S} ELSE
         LET X == {x \in S[e.i].a : x[1] = e.k} IN
         IF X = {} THEN (IF ~e.ok THEN {S} ELSE {}) ELSE IF e.ok /\ \A x \in X : x[2] = e.v THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
