--------------------------------- MODULE Csv ---------------------------------
(* P04: CSV texts and tables.                                                 *)
EXTENDS Bytes
CR == 13
LF == 10
QT == 34
----------------------------------------------------------------------------
(* the writer: every field quoted, quotes doubled, CR LF at the end *)
Quoted(f) == <<QT>> \o Concat([k \in 1 .. Len(f) |-> IF f[k] = QT THEN <<QT, QT>> ELSE <<f[k]>>]) \o <<QT>>
WriteRec(fs, sep) == Concat([k \in 1 .. Len(fs) |-> (IF k > 1 THEN <<sep>> ELSE <<>>) \o Quoted(fs[k])]) \o <<CR, LF>>
----------------------------------------------------------------------------
(* the grammar, on a text without CR; t[p] is the first character of a field. *)
(* A field: [s |-> content, next |-> index after it, ok |-> well formed]      *)
RECURSIVE QuotedField(_, _, _)
QuotedField(t, p, acc) ==      \* p: first character not yet scanned, inside the quotes
  LET q == FirstIn(t, p, {QT}) IN
  IF q > Len(t) THEN [s |-> acc, next |-> q, ok |-> FALSE]                    \* unterminated
  ELSE IF q < Len(t) /\ t[q + 1] = QT THEN QuotedField(t, q + 2, acc \o SubSeq(t, p, q))
  ELSE [s |-> acc \o SubSeq(t, p, q - 1), next |-> q + 1, ok |-> TRUE]
Field(t, p, sep) ==
  IF t[p] = QT
  THEN LET f == QuotedField(t, p + 1, <<>>)
       IN [f EXCEPT !.ok = @ /\ (f.next > Len(t) \/ t[f.next] \in {sep, LF})]
  ELSE LET e == FirstIn(t, p, {sep, LF}) IN [s |-> SubSeq(t, p, e - 1), next |-> e, ok |-> TRUE]
(* a record from index p: an empty unquoted field at the end is not reported *)
RECURSIVE RecordFrom(_, _, _, _)
RecordFrom(t, p, sep, acc) ==
  IF p > Len(t) THEN [fs |-> acc, next |-> p, ok |-> TRUE]
  ELSE IF t[p] = LF THEN [fs |-> acc, next |-> p + 1, ok |-> TRUE]
  ELSE LET f == Field(t, p, sep) IN
       IF ~f.ok THEN [fs |-> acc, next |-> f.next, ok |-> FALSE]
       ELSE IF f.next > Len(t) THEN [fs |-> Append(acc, f.s), next |-> f.next, ok |-> TRUE]
       ELSE IF t[f.next] = LF THEN [fs |-> Append(acc, f.s), next |-> f.next + 1, ok |-> TRUE]
       ELSE RecordFrom(t, f.next + 1, sep, Append(acc, f.s))
RECURSIVE SumLen(_)
SumLen(fs) == IF fs = <<>> THEN 0 ELSE Len(Head(fs)) + SumLen(Tail(fs))
----------------------------------------------------------------------------
InitCsv(sep, limit) == [sep |-> sep, limit |-> limit, raw |-> <<>>, t |-> <<>>, p |-> 1, q |-> <<>>, written |-> FALSE, dead |-> FALSE]
NoCR(fs) == [k \in 1 .. Len(fs) |-> Without(fs[k], {CR})]
Step(S, e) ==
  CASE e.op = "write" ->
         IF e.out = WriteRec(e.fs, S.sep)
         THEN {[S EXCEPT !.t = @ \o Without(e.out, {CR}), !.q = Append(@, NoCR(e.fs)), !.written = TRUE]} ELSE {}
    [] e.op = "text" -> {[S EXCEPT !.t = Without(e.s, {CR})]}
    [] e.op = "sep" -> LET ok == e.c \in {44, 9, 59, 32} IN IF e.rd = ok /\ e.wr = ok /\ e.file = ok THEN {S} ELSE {}
    [] e.op = "read" ->
         IF S.dead THEN {S}
         ELSE IF S.p > Len(S.t) THEN IF e.ret = 0 /\ S.q = <<>> THEN {S} ELSE {}
         ELSE LET r == RecordFrom(S.t, S.p, S.sep, <<>>)
                  bad == ~r.ok \/ SumLen(r.fs) >= S.limit
              IN IF bad THEN IF e.ret = 2 THEN {[S EXCEPT !.dead = TRUE]} ELSE {}
                 ELSE IF e.ret = 1 /\ e.fs = r.fs /\ (S.written => S.q # <<>> /\ e.fs = Head(S.q))
                      THEN {[S EXCEPT !.p = r.next, !.q = IF S.written THEN Tail(@) ELSE @]} ELSE {}
    [] OTHER -> {}
=============================================================================
