------------------------------- MODULE XmlMC -------------------------------
(* Every sequence of N tokens after the header: a document is "ok" exactly    *)
(* when its tags are well nested under one root (decided independently, by    *)
(* cancelling matching pairs), and every proper prefix of an accepted         *)
(* document that ends inside the root is "bad". Escaping is checked on all    *)
(* texts over the special characters and one plain one.                       *)
EXTENDS Xml, TLC
CONSTANT N
VARIABLE toks
H == Header \o <<32, 118, 61, 34, 49, 34, 63, 62>>      \* <?xml v="1"?>
T(k) == CASE k = 1 -> <<60, 97, 62>> [] k = 2 -> <<60, 47, 97, 62>> [] k = 3 -> <<60, 98, 32, 107, 61, 39, 62, 39, 62>>  \* <a> </a> <b k='>'>
          [] k = 4 -> <<60, 47, 98, 62>> [] k = 5 -> <<60, 97, 47, 62>> [] k = 6 -> <<120>> [] k = 7 -> <<32>>             \* </b> <a/> x blank
Init == toks = <<>>
Next == Len(toks) < N /\ \E k \in 1 .. 7 : toks' = Append(toks, k)
Doc == H \o Concat([i \in 1 .. Len(toks) |-> T(toks[i])])
\* cancelling: remove text and blanks inside, self-closed elements and matching pairs
RECURSIVE Cancel(_)
Cancel(q) == LET X == {i \in 1 .. Len(q) - 1 : (q[i] = 1 /\ q[i + 1] = 2) \/ (q[i] = 3 /\ q[i + 1] = 4)} IN
  IF X = {} THEN q ELSE LET i == CHOOSE i \in X : TRUE IN Cancel(SubSeq(q, 1, i - 1) \o SubSeq(q, i + 2, Len(q)))
Tags == SelectSeq(toks, LAMBDA k : k \in 1 .. 4)
Vis == SelectSeq(toks, LAMBDA k : k # 7)
OneRoot == \E o, c \in {<<1, 2>>, <<3, 4>>} : TRUE
\* one root: the first visible token opens it and its end tag is the last visible token, or the document is a single empty element
Nested == \/ Vis = <<5>>
          \/ /\ Len(Vis) >= 2 /\ Vis[1] \in {1, 3} /\ Vis[Len(Vis)] = Vis[1] + 1 /\ Cancel(Tags) = <<>>
             /\ Cancel(SubSeq(Tags, 2, Len(Tags) - 1)) = <<>>
Correct == (Parse(Doc).c = "ok") <=> Nested
PrefixBad == Parse(Doc).c = "ok" => \A n \in 0 .. Len(Doc) - 1 : LET w == Parse(SubSeq(Doc, 1, n)) IN w.c = "bad" \/ (w.c = "ok" /\ w.nodes = Parse(Doc).nodes)
Count == LET w == Parse(Doc) IN w.c = "ok" => Len(w.nodes) = Len(SelectSeq(toks, LAMBDA k : k \in {1, 3, 5}))
Txt == [i \in 1 .. Len(toks) |-> CASE toks[i] = 1 -> 38 [] toks[i] = 2 -> 60 [] toks[i] = 3 -> 62 [] toks[i] = 4 -> 39 [] toks[i] = 5 -> 34 [] toks[i] = 6 -> 97 [] OTHER -> 59]
EscInverse == LET x == Escape(Txt) IN /\ Unescape(x).ok /\ Unescape(x).v = Txt /\ \A i \in 1 .. Len(x) : x[i] \notin {60, 62, 39, 34}
Emit == PrintT(<<"GEN", <<Len(toks)>> \o toks>>)
=============================================================================
