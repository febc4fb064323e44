------------------------------ MODULE LineStream ------------------------------
(* P03: the lines of an input are a function of its bytes alone.              *)
EXTENDS Bytes
CR == 13
LF == 10
\* next line of text from 0-based offset p: [s |-> line, next |-> offset after it]
LineAt(text, p) ==
  LET e == FirstIn(text, p + 1, {LF}) IN          \* 1-based index of LF or Len+1
  IF e > Len(text) THEN [s |-> SubSeq(text, p + 1, Len(text)), next |-> Len(text)]
  ELSE [s |-> SubSeq(text, p + 1, IF e > p + 1 /\ text[e - 1] = CR THEN e - 2 ELSE e - 1), next |-> e]

InitLS(text, max) == [text |-> text, max |-> max, pos |-> 0, over |-> FALSE]
Step(S, e) ==
  CASE e.op = "next" ->
         IF S.over THEN {S}                           \* after a thrown limit nothing is promised
         ELSE IF S.pos = Len(S.text) THEN IF e.ret = 0 THEN {S} ELSE {}
         ELSE LET l == LineAt(S.text, S.pos) IN
              IF Len(l.s) > S.max THEN IF e.ret = 2 THEN {[S EXCEPT !.over = TRUE]} ELSE {}
              ELSE IF e.ret = 1 /\ e.line = l.s THEN {[S EXCEPT !.pos = l.next]} ELSE {}
    [] e.op = "remain" ->   \* buffered raw bytes: what follows the returned lines, up to what the reader delivered
         IF S.over THEN {S}
         ELSE IF e.s = SubSeq(S.text, S.pos + 1, e.rpos) THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
