-------------------------------- MODULE Stream --------------------------------
(* P02: input and output stream adaptors.                                     *)
(* kind: "mem", "str", "std" (std::istream), "short" (a reader that returns   *)
(* fewer bytes than asked); for output "mem" (fixed buffer of cap bytes),     *)
(* "str", "std".                                                              *)
EXTENDS Bytes
InitStream(kind, data, kindO, content, cap) ==
   [kind |-> kind, data |-> data, pos |-> 0, kindO |-> kindO, out |-> content, cap |-> cap, bad |-> FALSE]
Rem(S) == Len(S.data) - S.pos
Fits(S, n) == IF S.kindO = "mem" THEN n <= S.cap - Len(S.out) ELSE IF S.kindO = "std" THEN ~S.bad ELSE TRUE
PosOk(S, p) == p = -1 \/ p = S.pos
OPosOk(S, p) == p = -1 \/ p = Len(S.out)

Advance(S, n) == [S EXCEPT !.pos = @ + n]
Put(S, b) == [S EXCEPT !.out = @ \o b]

\* successors for an operation with its observed results
Step(S, e) ==
  CASE e.op = "readSome" ->
         LET want == Min2(e.n, Rem(S))
             ok == IF S.kind = "short" /\ want > 0 THEN e.ret >= 1 /\ e.ret <= want ELSE e.ret = want
             T == Advance(S, e.ret)
         IN IF ok /\ e.out = Slice(S.data, S.pos, e.ret) /\ PosOk(T, e.pos) THEN {T} ELSE {}
    [] e.op = "read" ->      \* exact length
         IF e.n <= Rem(S)
         THEN LET T == Advance(S, e.n) IN IF e.ok /\ e.out = Slice(S.data, S.pos, e.n) /\ PosOk(T, e.pos) THEN {T} ELSE {}
         ELSE LET T == Advance(S, Rem(S)) IN IF ~e.ok /\ PosOk(T, e.pos) THEN {T} ELSE {}
    [] e.op = "readChar" ->
         IF Rem(S) > 0
         THEN LET T == Advance(S, 1) IN IF e.ok /\ e.c = S.data[S.pos + 1] /\ PosOk(T, e.pos) THEN {T} ELSE {}
         ELSE IF ~e.ok /\ PosOk(S, e.pos) THEN {S} ELSE {}
    [] e.op = "write" ->
         IF Fits(S, Len(e.b))
         THEN LET T == Put(S, e.b) IN IF e.ok /\ OPosOk(T, e.pos) THEN {T} ELSE {}
         ELSE IF ~e.ok /\ OPosOk(S, e.pos) THEN {S} ELSE {}
    [] e.op = "break" -> {[S EXCEPT !.bad = TRUE]}
    [] e.op = "content" -> IF e.guard /\ e.out = S.out THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
