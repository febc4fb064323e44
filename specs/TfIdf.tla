------------------------------- MODULE TfIdf --------------------------------
(* P42: term statistics over documents. d: words of the document collection   *)
(* in order of first appearance, the number of documents containing each, the *)
(* words of the current document. t: keywords, for each document with at      *)
(* least one keyword how often each occurs. Words count without regard to the *)
(* case of letters.                                                           *)
EXTENDS Integers, Sequences, FiniteSets
Low(w) == [i \in DOMAIN w |-> IF w[i] \in 65 .. 90 THEN w[i] + 32 ELSE w[i]]
Has(s, x) == \E i \in DOMAIN s : s[i] = x
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
InitT == [d |-> [n |-> 0, w |-> <<>>, c |-> <<>>, cur |-> {}],
          t |-> [w |-> <<>>, c |-> <<>>, tf |-> <<>>, cur |-> <<>>]] \* cur: <<>> or the counts of the current document
DApp(D, w0) == LET w == Low(w0) E == IF Has(D.w, w) THEN D ELSE [D EXCEPT !.w = Append(@, w), !.c = Append(@, 0)] IN
  IF w \in D.cur THEN D ELSE [E EXCEPT !.c[Pos(E.w, w)] = @ + 1, !.cur = @ \cup {w}]
DEnd(D) == [D EXCEPT !.n = @ + 1, !.cur = {}]
TApp(T, w0) == LET w == Low(w0) IN IF ~Has(T.w, w) THEN T
  ELSE LET i == Pos(T.w, w) c == IF T.cur = <<>> THEN [k \in DOMAIN T.w |-> 0] ELSE T.cur IN [T EXCEPT !.cur = [c EXCEPT ![i] = @ + 1], !.c[i] = IF c[i] = 0 THEN @ + 1 ELSE @]
TEnd(T) == IF T.cur = <<>> THEN T ELSE [T EXCEPT !.tf = Append(@, T.cur), !.cur = <<>>]
\* keywords: those of the lines up to the first without a tab, each once
RECURSIVE Keys(_, _, _)
Keys(lines, i, ws) == IF i > Len(lines) \/ ~lines[i].tab THEN ws ELSE Keys(lines, i + 1, IF Has(ws, lines[i].w) THEN ws ELSE Append(ws, lines[i].w))
\* choice of words: more than low documents, the share num/den of them that are rarest, by rising frequency
Chosen(D, low, num, den, out) == LET m == {i \in DOMAIN D.w : D.c[i] > low} IN
  /\ Len(out) = (Cardinality(m) * num) \div den
  /\ \A k \in DOMAIN out : out[k][1] \in m /\ out[k][2] = D.c[out[k][1]] /\ (k > 1 => out[k - 1][2] <= out[k][2])
  /\ Cardinality({out[k][1] : k \in DOMAIN out}) = Len(out)
  /\ \A i \in m \ {out[k][1] : k \in DOMAIN out} : \A k \in DOMAIN out : out[k][2] <= D.c[i]
Within(x, y, e) == x - y <= e /\ y - x <= e
Present(c) == {i \in DOMAIN c : c[i] > 0}
\* vector v of a document: one entry for each keyword in it, by rising number, value = occurrences times log(documents / documents with it), in millionths
Weights(T, c, v, logs) == /\ Len(v) = Cardinality(Present(c))
  /\ \A k \in DOMAIN v : v[k][1] \in Present(c) /\ T.c[v[k][1]] \in DOMAIN logs /\ (k > 1 => v[k - 1][1] < v[k][1]) /\ Within(v[k][2], c[v[k][1]] * logs[T.c[v[k][1]]], c[v[k][1]] + 1)
Step(S, e) ==
  CASE e.op = "dapp" -> {[S EXCEPT !.d = DApp(@, e.w)]}
    [] e.op = "dend" -> {[S EXCEPT !.d = DEnd(@)]}
    [] e.op = "dstat" -> IF e.n = S.d.n /\ e.w = S.d.w /\ e.c = S.d.c /\ e.ids = [i \in DOMAIN S.d.w |-> i] THEN {S} ELSE {}
    [] e.op = "dterm" -> IF Chosen(S.d, e.low, e.num, e.den, e.out) THEN {S} ELSE {}
    [] e.op = "dprint" -> IF \A k \in DOMAIN e.out : k \in DOMAIN e.ids /\ S.d.c[e.ids[k]] \in DOMAIN e.logs /\ e.out[k].w = S.d.w[e.ids[k]] /\ e.out[k].c = S.d.c[e.ids[k]] /\ Within(e.out[k].v, e.logs[S.d.c[e.ids[k]]], 50 + (e.logs[S.d.c[e.ids[k]]] \div 50000)) THEN IF Len(e.out) = Len(e.ids) THEN {S} ELSE {} ELSE {}
    [] e.op = "tkey" -> IF e.r # e.there THEN {} ELSE {IF e.there THEN [S EXCEPT !.t = [w |-> Keys(e.lines, 1, <<>>), c |-> [i \in 1 .. Len(Keys(e.lines, 1, <<>>)) |-> 0], tf |-> <<>>, cur |-> <<>>]] ELSE S}
    [] e.op = "tapp" -> {[S EXCEPT !.t = TApp(@, e.w)]}
    [] e.op = "tend" -> {[S EXCEPT !.t = TEnd(@)]}
    [] e.op = "tterm" -> LET T == S.t IN
         IF /\ e.w = T.w /\ e.c = T.c /\ e.tf = [k \in DOMAIN T.tf |-> T.tf[k]]
            /\ Len(e.sv) = Len(T.tf) /\ \A k \in DOMAIN e.sv : Weights(T, T.tf[k], e.sv[k], e.logs) THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
