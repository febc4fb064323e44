-------------------------------- MODULE Diag --------------------------------
(* P36: formatting, exception messages, error codes, and the logger: where    *)
(* and whether a message is written. Texts of formatting are run-length lists *)
(* <<byte, count>> so that results of any length can be handled.              *)
EXTENDS Calendar, FiniteSets
RECURSIVE CatAll(_)
CatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatAll(Tail(ss))
\* merge adjacent runs of the same byte, drop empty ones
RECURSIVE NormR(_, _, _)
NormR(rs, i, acc) == IF i > Len(rs) THEN acc ELSE IF rs[i][2] = 0 THEN NormR(rs, i + 1, acc)
  ELSE IF acc # <<>> /\ acc[Len(acc)][1] = rs[i][1] THEN NormR(rs, i + 1, [acc EXCEPT ![Len(acc)][2] = @ + rs[i][2]]) ELSE NormR(rs, i + 1, Append(acc, rs[i]))
Runs(bs) == [i \in 1 .. Len(bs) |-> <<bs[i], 1>>]
RECURSIVE RLen(_)
RLen(rs) == IF rs = <<>> THEN 0 ELSE rs[1][2] + RLen(Tail(rs))
RECURSIVE DecOf(_)
DecOf(v) == IF v < 10 THEN <<48 + v>> ELSE Append(DecOf(v \div 10), 48 + (v % 10))
IntText(v) == IF v < 0 THEN <<45>> \o DecOf(-v) ELSE DecOf(v)
\* one conversion: literal or %s, %d, %*s (right justified), %-*s
Rendered(p) == CASE p.k = "lit" -> p.r [] p.k = "s" -> p.r [] p.k = "d" -> Runs(IntText(p.v))
  [] p.k = "ws" -> (IF p.w > RLen(p.r) THEN <<<<32, p.w - RLen(p.r)>>>> ELSE <<>>) \o p.r
  [] p.k = "ls" -> p.r \o (IF p.w > RLen(p.r) THEN <<<<32, p.w - RLen(p.r)>>>> ELSE <<>>)
FormatOf(ps) == NormR(CatAll([i \in 1 .. Len(ps) |-> Rendered(ps[i])]), 1, <<>>)
Item(x) == CASE x.k = "s" -> x.b [] x.k = "d" -> IntText(x.v)
Message(name, items) == name \o CatAll([i \in 1 .. Len(items) |-> <<58>> \o Item(items[i])])
\* --- the logger. dest: 0 nowhere, 1 and 2 files opened by path, 3 a stream of the caller, 4 stderr, 5 a stream of the caller that cannot be written
Line(e, ms) == Text(e.n, e.s, e.m, ms, FALSE, 45, 32) \o <<32>> \o e.text \o <<10>>
Contains(s, t) == \E p \in 0 .. Len(s) - Len(t) : SubSeq(s, p + 1, p + Len(t)) = t
SysPri(p) == CASE p = 0 -> {7} [] p = 1 -> {6} [] p = 2 -> {4} [] OTHER -> {2, 3}
Wrote(S, e) == \* e.d[i]: what destination i received
  IF e.p < S.pri THEN (\A i \in 1 .. 4 : e.d[i] = <<>>) /\ e.sys = <<>>
  ELSE /\ \A i \in 1 .. 3 : e.d[i] = (IF S.dest = i THEN Line(e, S.ms) ELSE <<>>)
       /\ IF S.dest = 4 THEN e.d[4] = Line(e, S.ms) ELSE IF S.dest = 5 THEN Contains(e.d[4], e.text) ELSE e.d[4] = <<>>
       /\ IF S.sys THEN Len(e.sys) = 1 /\ e.sys[1].p \in SysPri(e.p) /\ e.sys[1].t = e.text ELSE e.sys = <<>>
InitLog == [dest |-> 4, sys |-> TRUE, pri |-> 1, ms |-> FALSE]
Step(S, e) ==
  CASE e.op = "format" -> IF e.r = FormatOf(e.ps) THEN {S} ELSE {}
    [] e.op = "exc" -> IF e.r = Message(e.name, e.items) /\ e.what = e.r /\ e.copy = e.r THEN {S} ELSE {}
    [] e.op = "errno" -> IF e.t = e.lib \o <<40>> \o IntText(e.v) \o <<41>> /\ e.late = e.t THEN {S} ELSE {}
    [] e.op = "open" -> IF e.ok THEN (IF e.f \in {1, 2} THEN {[S EXCEPT !.dest = e.f, !.sys = FALSE]} ELSE {}) ELSE IF e.f = 9 THEN {S} ELSE {}   \* 9: a path that cannot be opened
    [] e.op = "set" -> {[S EXCEPT !.dest = e.f, !.sys = FALSE]}
    [] e.op = "usesys" -> {[S EXCEPT !.sys = e.b]}
    [] e.op = "pri" -> {[S EXCEPT !.pri = e.p]}
    [] e.op = "ms" -> {[S EXCEPT !.ms = e.b]}
    [] e.op = "put" -> IF ~e.lost /\ Wrote(S, e) THEN {S} ELSE {}
    [] e.op = "own" -> \* files the logger holds open; the caller's streams still work
         IF e.fds = (IF S.dest \in {1, 2} THEN 1 ELSE 0) /\ e.alive THEN {S} ELSE {}
    [] e.op = "threads" -> \* messages put by several threads: the file has each exactly once, as whole lines
         IF Len(e.lines) = Len(e.texts) /\ \A i \in 1 .. Len(e.texts) :
              LET want == Text(e.n, e.s, e.m, FALSE, FALSE, 45, 32) \o <<32>> \o e.texts[i] IN
              Cardinality({j \in 1 .. Len(e.lines) : e.lines[j] = want}) = Cardinality({j \in 1 .. Len(e.texts) : e.texts[j] = e.texts[i]}) THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
