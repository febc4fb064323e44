------------------------------- MODULE Regex --------------------------------
(* P39: regular expressions over code points. An expression is a tree:        *)
(*   [t |-> "c", c]                  one character                            *)
(*   [t |-> "dot"]                   any character                            *)
(*   [t |-> "set", neg, r]           character class; r: <<low, high>> pairs  *)
(*   [t |-> "seq", l]  [t |-> "alt", l]                                       *)
(*   [t |-> "rep", x, lo, hi, lazy]  repetition, hi = -1: no upper bound      *)
(*   [t |-> "grp", n, x]             capturing group n; n = 0: not capturing  *)
(*   [t |-> "bol"]  [t |-> "eol"]    begin and end of the text                *)
(* First is the match a backtracking reading prefers: alternatives from left  *)
(* to right, as many repetitions as possible (as few when lazy).              *)
EXTENDS Integers, Sequences, FiniteSets
Lower(c) == IF c \in 65 .. 90 THEN c + 32 ELSE c
Upper(c) == IF c \in 97 .. 122 THEN c - 32 ELSE c
InRanges(r, c) == \E k \in DOMAIN r : r[k][1] <= c /\ c <= r[k][2]
\* does one character item accept character c
Accepts(x, c, ic) == CASE x.t = "c" -> x.c = c \/ (ic /\ Lower(x.c) = Lower(c))
  [] x.t = "dot" -> TRUE
  [] x.t = "set" -> x.neg # (InRanges(x.r, c) \/ (ic /\ (InRanges(x.r, Lower(c)) \/ InRanges(x.r, Upper(c)))))
NoMatch == [ok |-> FALSE]
\* w: [s: text, ic: ignore case, all: must reach the end]; st: what is still to be matched, from index i; caps: groups so far
RECURSIVE Try(_, _, _, _)
Try(w, st, i, caps) ==
  IF st = <<>> THEN IF w.all /\ i # Len(w.s) + 1 THEN NoMatch ELSE [ok |-> TRUE, e |-> i, caps |-> caps]
  ELSE LET x == Head(st) rest == Tail(st) IN
  CASE x.t \in {"c", "dot", "set"} -> IF i <= Len(w.s) /\ Accepts(x, w.s[i], w.ic) THEN Try(w, rest, i + 1, caps) ELSE NoMatch
    [] x.t = "seq" -> Try(w, x.l \o rest, i, caps)
    [] x.t = "alt" -> IF Len(x.l) = 1 THEN Try(w, <<x.l[1]>> \o rest, i, caps)
                      ELSE LET a == Try(w, <<x.l[1]>> \o rest, i, caps) IN IF a.ok THEN a ELSE Try(w, <<[x EXCEPT !.l = Tail(@)]>> \o rest, i, caps)
    [] x.t = "grp" -> Try(w, <<x.x>> \o (IF x.n = 0 THEN <<>> ELSE <<[t |-> "end", n |-> x.n, b |-> i]>>) \o rest, i, caps)
    [] x.t = "end" -> Try(w, rest, i, [caps EXCEPT ![x.n] = <<x.b, i>>])
    [] x.t = "rep" ->
         LET more == <<x.x, [x EXCEPT !.lo = IF @ > 0 THEN @ - 1 ELSE 0, !.hi = IF @ > 0 THEN @ - 1 ELSE @]>> \o rest IN
         IF x.hi = 0 THEN Try(w, rest, i, caps)
         ELSE IF x.lo > 0 THEN Try(w, more, i, caps)
         ELSE LET a == Try(w, IF x.lazy THEN rest ELSE more, i, caps) IN IF a.ok THEN a ELSE Try(w, IF x.lazy THEN more ELSE rest, i, caps)
    [] x.t = "bol" -> IF i = w.b THEN Try(w, rest, i, caps) ELSE NoMatch
    [] x.t = "eol" -> IF i = Len(w.s) + 1 /\ ~w.ne THEN Try(w, rest, i, caps) ELSE NoMatch
NoCaps(n) == [k \in 1 .. n |-> <<0, 0>>]
\* flags: nb - the text's begin is no "bol", ne - its end no "eol", ct - a match must begin where the search does
NoFlags == [nb |-> FALSE, ne |-> FALSE, ct |-> FALSE]
World(s, ic, all, fl) == [s |-> s, ic |-> ic, all |-> all, b |-> IF fl.nb THEN 0 ELSE 1, ne |-> fl.ne]
\* the whole text
FullMatch(x, n, s, ic, fl) == Try(World(s, ic, TRUE, fl), <<x>>, 1, NoCaps(n))
\* the leftmost match beginning at p or later
RECURSIVE Search(_, _, _, _, _, _)
Search(x, n, s, ic, p, fl) ==
  IF p > Len(s) + 1 THEN NoMatch
  ELSE LET a == Try(World(s, ic, FALSE, fl), <<x>>, p, NoCaps(n)) IN IF a.ok THEN [ok |-> TRUE, b |-> p, e |-> a.e, caps |-> a.caps] ELSE IF fl.ct THEN NoMatch ELSE Search(x, n, s, ic, p + 1, fl)
\* all matches one after the other (expressions that match no empty text)
RECURSIVE AllFrom(_, _, _, _, _, _)
AllFrom(x, n, s, ic, p, fl) == LET a == Search(x, n, s, ic, p, fl) IN IF ~a.ok THEN <<>> ELSE <<a>> \o AllFrom(x, n, s, ic, a.e, fl)
Part(s, c) == IF c[1] = 0 THEN <<>> ELSE SubSeq(s, c[1], c[2] - 1)
\* group k of match a: 0 the whole, -1 (tokens) what lies between the matches
Group(s, a, k) == IF k = 0 THEN SubSeq(s, a.b, a.e - 1) ELSE Part(s, a.caps[k])
\* tokens: for each match the asked groups in order; -1 as the first of them also yields the text behind the last match, unless empty
RECURSIVE Tok(_, _, _, _, _)
Tok(s, ms, subs, i, prev) ==
  IF i > Len(ms) THEN IF subs[1] = -1 /\ prev <= Len(s) THEN <<SubSeq(s, prev, Len(s))>> ELSE <<>>
  ELSE [k \in DOMAIN subs |-> IF subs[k] = -1 THEN SubSeq(s, prev, ms[i].b - 1) ELSE Group(s, ms[i], subs[k])] \o Tok(s, ms, subs, i + 1, ms[i].e)
\* replacement: f is a sequence of characters (>= 0) and groups (-1: the match, -1 - k: group k)
RECURSIVE Fill(_, _, _, _)
Fill(s, a, f, k) == IF k > Len(f) THEN <<>> ELSE (IF f[k] >= 0 THEN <<f[k]>> ELSE Group(s, a, -1 - f[k])) \o Fill(s, a, f, k + 1)
RECURSIVE Repl(_, _, _, _, _, _)
Repl(s, ms, f, i, prev, copy) ==
  IF i > Len(ms) THEN IF copy THEN SubSeq(s, prev, Len(s)) ELSE <<>>
  ELSE (IF copy THEN SubSeq(s, prev, ms[i].b - 1) ELSE <<>>) \o Fill(s, ms[i], f, 1) \o Repl(s, ms, f, i + 1, ms[i].e, copy)
Replaced(s, ms, f, first, copy) == Repl(s, IF first /\ ms # <<>> THEN <<ms[1]>> ELSE ms, f, 1, 1, copy)
\* what a match object shows
Shown(s, a, e) == /\ e.b = a.b /\ e.str = SubSeq(s, a.b, a.e - 1) /\ e.pre = SubSeq(s, 1, a.b - 1) /\ e.suf = SubSeq(s, a.e, Len(s))
                  /\ e.got = [k \in DOMAIN a.caps |-> a.caps[k][1] # 0] /\ e.grp = [k \in DOMAIN a.caps |-> Part(s, a.caps[k])]
Step(S, e) ==
  CASE e.op = "re" -> {[x |-> e.x, n |-> e.n, ic |-> e.ic, s |-> <<>>]}
    [] e.op = "text" -> {[S EXCEPT !.s = e.s]}
    [] e.op = "match" -> LET a == FullMatch(S.x, S.n, S.s, S.ic, e.fl) IN IF e.r = a.ok /\ (e.r /\ e.full => Shown(S.s, [ok |-> TRUE, b |-> 1, e |-> a.e, caps |-> a.caps], e)) THEN {S} ELSE {}
    [] e.op = "search" -> LET a == Search(S.x, S.n, S.s, S.ic, 1, e.fl) IN IF e.r = a.ok /\ (e.r /\ e.full => Shown(S.s, a, e)) THEN {S} ELSE {}
    [] e.op = "iter" -> LET ms == AllFrom(S.x, S.n, S.s, S.ic, 1, e.fl) IN
         IF Len(e.l) = Len(ms) /\ \A i \in DOMAIN ms : e.l[i].b = ms[i].b /\ e.l[i].str = SubSeq(S.s, ms[i].b, ms[i].e - 1) /\ e.l[i].grp = [k \in DOMAIN ms[i].caps |-> Part(S.s, ms[i].caps[k])] THEN {S} ELSE {}
    [] e.op = "tok" -> IF e.l = Tok(S.s, AllFrom(S.x, S.n, S.s, S.ic, 1, e.fl), e.subs, 1, 1) THEN {S} ELSE {}
    [] e.op = "repl" -> IF e.r = Replaced(S.s, AllFrom(S.x, S.n, S.s, S.ic, 1, e.fl), e.f, e.first, e.copy) THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
