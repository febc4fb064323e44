------------------------------- MODULE Option -------------------------------
(* P15: assignment of command line arguments to declared options.             *)
(* A declaration D: opts  = sequence of [n: name, k: "flag"|"one"|"must"|"vec", ty, def]  *)
(*                  params = sequence of [ty, def]; pmode "exact" | "optional" (last      *)
(*                  parameter) | "variable" (rest goes to a list of type rty); delims.    *)
(* A type is 0 for text or 10*bits + (1 if signed) for integers. Values: text as bytes,   *)
(* integers as <<neg, limb1..limb4>>, flags as <<0>>/<<1>>, lists as sequences of values. *)
EXTENDS NumText, SequencesExt
RECURSIVE MulDig(_, _, _)
MulDig(ds, f, carry) ==   \* ds * f + carry, most significant first
  IF ds = <<>> THEN (IF carry = 0 THEN <<>> ELSE MulDig(<<>>, f, carry \div 10) \o <<carry % 10>>)
  ELSE LET x == ds[Len(ds)] * f + carry IN MulDig(SubSeq(ds, 1, Len(ds) - 1), f, x \div 10) \o <<x % 10>>
RECURSIVE Scale(_, _, _)
Scale(ds, f, times) == IF times = 0 THEN ds ELSE Scale(MulDig(ds, f, 0), f, times - 1)
Suffix(c) == CASE c = 107 -> <<1000, 1>> [] c = 109 -> <<1000, 2>> [] c = 103 -> <<1000, 3>>
               [] c = 75 -> <<1024, 1>> [] c = 77 -> <<1024, 2>> [] c = 71 -> <<1024, 3>> [] OTHER -> <<1, 0>>
IntVal(neg, m, base) == <<IF neg THEN 1 ELSE 0>> \o ToWord(m, base, W0)
Bad == [ok |-> FALSE, v |-> <<>>]
Conv(ty, s) ==
  IF ty = 0 THEN [ok |-> TRUE, v |-> s]
  ELSE LET bits == ty \div 10 sg == ty % 10 = 1
           max == IF sg THEN SMax(bits) ELSE UMax(bits) min == IF sg THEN SMin(bits) ELSE <<>> IN
    IF Len(s) >= 2 /\ s[1] = 48 /\ s[2] = 120 THEN
      LET w == ParseHex(SubSeq(s, 3, Len(s)), bits, sg) IN IF w.ok THEN [ok |-> TRUE, v |-> IntVal(FALSE, w.m, 16)] ELSE Bad
    ELSE LET sf == IF Len(s) > 1 THEN Suffix(s[Len(s)]) ELSE <<1, 0>>
             body == IF sf[2] > 0 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
             w == ParseDec(body, max, min, sg)
             m == StripZeros(Scale(w.m, sf[1], sf[2]))
         IN IF w.ok /\ DigLe(m, IF w.neg THEN min ELSE max) THEN [ok |-> TRUE, v |-> IntVal(w.neg, m, 10)] ELSE Bad
IsOpt(s) == Len(s) >= 1 /\ s[1] = 45 /\ ~(Len(s) >= 2 /\ s[2] \in 48 .. 57)
OptIdx(D, nm) == LET X == {i \in 1 .. Len(D.opts) : D.opts[i].n = nm} IN IF X = {} THEN 0 ELSE CHOOSE i \in X : TRUE
NoErr(D) == [ok |-> TRUE,
  ov |-> [i \in 1 .. Len(D.opts) |-> D.opts[i].def], os |-> [i \in 1 .. Len(D.opts) |-> FALSE],
  pv |-> [i \in 1 .. Len(D.params) |-> D.params[i].def], np |-> 0,
  rest |-> <<>>, next |-> -1, tail |-> <<>>, help |-> FALSE]
Fail(r) == [r EXCEPT !.ok = FALSE]
SetOpt(r, i, v) == [r EXCEPT !.ov[i] = v, !.os[i] = TRUE]
\* list option: takes arguments up to the next option; at least one
RECURSIVE TakeVec(_, _, _, _)
TakeVec(ty, args, p, acc) == IF p > Len(args) \/ IsOpt(args[p]) THEN [ok |-> acc # <<>>, p |-> p, l |-> acc]
  ELSE LET c == Conv(ty, args[p]) IN IF c.ok THEN TakeVec(ty, args, p + 1, Append(acc, c.v)) ELSE [ok |-> FALSE, p |-> p, l |-> acc]
RECURSIVE Parse(_, _, _, _)
Parse(D, args, p, r) ==      \* p: 1-based position of the next argument
  IF p > Len(args) THEN [r EXCEPT !.next = Len(args)]
  ELSE LET a == args[p] IN
    IF \E k \in 1 .. Len(D.delims) : D.delims[k] = a THEN [r EXCEPT !.next = p, !.tail = SubSeq(args, p + 1, Len(args))]
    ELSE IF IsOpt(a) THEN
      LET i == OptIdx(D, Tail(a)) IN
      IF D.help # <<>> /\ Tail(a) = D.help THEN [r EXCEPT !.help = TRUE]
      ELSE IF i = 0 THEN Fail(r)
      ELSE CASE D.opts[i].k = "flag" -> Parse(D, args, p + 1, SetOpt(r, i, <<1>>))
             [] D.opts[i].k \in {"one", "must"} ->
                  IF p = Len(args) THEN Fail(r)
                  ELSE LET c == Conv(D.opts[i].ty, args[p + 1]) IN IF c.ok THEN Parse(D, args, p + 2, SetOpt(r, i, c.v)) ELSE Fail(r)
             [] D.opts[i].k = "vec" ->
                  LET t == TakeVec(D.opts[i].ty, args, p + 1, <<>>) IN IF t.ok THEN Parse(D, args, t.p, SetOpt(r, i, r.ov[i] \o t.l)) ELSE Fail(r)
    ELSE IF r.np < Len(D.params) THEN
      LET c == Conv(D.params[r.np + 1].ty, a) IN IF c.ok THEN Parse(D, args, p + 1, [r EXCEPT !.pv[r.np + 1] = c.v, !.np = @ + 1]) ELSE Fail(r)
    ELSE IF D.pmode = "variable" THEN
      LET c == Conv(D.rty, a) IN IF c.ok THEN Parse(D, args, p + 1, [r EXCEPT !.rest = Append(@, c.v)]) ELSE Fail(r)
    ELSE Fail(r)
Mandatory(D) == Len(D.params) - (IF D.pmode = "optional" THEN 1 ELSE 0)
Result(D, args) == LET r == Parse(D, args, 1, NoErr(D)) IN
  IF r.ok /\ (\A i \in 1 .. Len(D.opts) : D.opts[i].k = "must" => r.os[i]) /\ r.np >= Mandatory(D) THEN r ELSE Fail(r)
\* texts: values, the list of variables, the usage
TextOf(ty, v) == IF ty = 0 THEN v ELSE (IF v[1] = 1 THEN <<45>> ELSE <<>>) \o [i \in 1 .. Len(Digits(Tail(v), 10)) |-> 48 + Digits(Tail(v), 10)[i]]
RECURSIVE Cat(_), JoinBl(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
JoinBl(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<32>> \o JoinBl(Tail(ss))
ListText(ty, l) == JoinBl([i \in 1 .. Len(l) |-> TextOf(ty, l[i])])
IsSetText == <<32, 40, 115, 101, 116, 41, 10>>                              \* " (set)"
DefaultText == <<32, 40, 100, 101, 102, 97, 117, 108, 116, 41, 10>>         \* " (default)"
Remains == <<114, 101, 109, 97, 105, 110, 115, 61>>
Show(D, r) ==
  Cat([i \in 1 .. Len(D.params) |-> <<112, 61>> \o TextOf(D.params[i].ty, r.pv[i]) \o <<10>>])
  \o (IF D.pmode = "variable" THEN Remains \o ListText(D.rty, r.rest) \o <<10>> ELSE <<>>)
  \o Cat([i \in 1 .. Len(D.opts) |-> LET o == D.opts[i] IN
        o.n \o <<61>> \o (IF o.k = "flag" THEN <<48 + r.ov[i][1]>> ELSE IF o.k = "vec" THEN ListText(o.ty, r.ov[i]) ELSE TextOf(o.ty, r.ov[i]))
        \o (IF r.os[i] THEN IsSetText ELSE DefaultText)])
EndsWith(t, x) == Len(t) >= Len(x) /\ SubSeq(t, Len(t) - Len(x) + 1, Len(t)) = x
Must == <<32, 40, 109, 117, 115, 116, 41>>                                  \* " (must)"
LinesOf(t) == LET ends == SetToSortSeq({i \in 1 .. Len(t) : t[i] = 10}, LAMBDA a, b : a < b) IN
  {SubSeq(t, (IF k = 1 THEN 0 ELSE ends[k - 1]) + 1, ends[k] - 1) : k \in 1 .. Len(ends)}
Describes(l, nm) == IsPrefixOf(<<32, 32, 45>> \o nm \o <<32>>, l)
\* every option has a line, which tells whether it must be given; the help option has one as well
UsageOk(D, text) == LET ls == LinesOf(text) IN
  /\ \A i \in 1 .. Len(D.opts) : \E l \in ls : Describes(l, D.opts[i].n) /\ EndsWith(l, Must) = (D.opts[i].k = "must")
  /\ (D.help # <<>> => \E l \in ls : Describes(l, D.help))
Step(S, e) ==
  CASE e.op = "parse" ->
         LET r == Result(e.d, e.args) IN
         IF /\ e.ok = r.ok /\ ~r.help
            /\ (~e.ok => e.said)
            /\ (r.ok => /\ e.ov = r.ov /\ e.os = r.os /\ e.pv = r.pv
                        /\ e.ps = [i \in 1 .. Len(e.d.params) |-> i <= r.np]
                        /\ e.rest = r.rest /\ e.next = r.next + e.start /\ e.tail = (IF e.hasTail THEN r.tail ELSE <<>>))
         THEN {S} ELSE {}
    [] e.op = "conv" -> LET c == Conv(e.ty, e.s) IN IF e.ok = c.ok /\ (c.ok => e.v = c.v) THEN {S} ELSE {}
    [] e.op = "badDecl" -> IF e.thrown THEN {S} ELSE {}   \* duplicate or numeric option name, parameter after an optional or list parameter
    [] e.op = "help" -> \* reaching the help option shows the usage and ends the program successfully; nothing else does
         LET r == Parse(e.d, e.args, 1, NoErr(e.d)) IN
         IF e.ended = r.help /\ (e.ended => e.status = 0 /\ UsageOk(e.d, e.text)) THEN {S} ELSE {}
    [] e.op = "show" -> LET r == Result(e.d, e.args) IN IF r.ok /\ e.text = Show(e.d, r) THEN {S} ELSE {}
    [] e.op = "usage" -> IF UsageOk(e.d, e.text) THEN {S} ELSE {}
    [] e.op = "unknown" -> IF e.thrown THEN {S} ELSE {}    \* asking about a variable that was never declared
    [] OTHER -> {}
=============================================================================
