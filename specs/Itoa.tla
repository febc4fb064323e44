-------------------------------- MODULE Itoa --------------------------------
(* P12: the text of an integer. Values are given as sign and magnitude word.  *)
EXTENDS Num
Chr(d, up) == IF d < 10 THEN 48 + d ELSE IF up THEN 55 + d ELSE 87 + d
Text(w, base, up) == LET d == Digits(w, base) IN [i \in 1 .. Len(d) |-> Chr(d[i], up)]
SignedText(e) == (IF e.neg THEN <<45>> ELSE <<>>) \o Text(e.abs, 10, TRUE)
Fill(c, n) == [i \in 1 .. n |-> c]
PadLeft(t, c, n) == IF Len(t) >= n THEN t ELSE Fill(c, n - Len(t)) \o t
DigitsPerByte(base) == IF base = 16 THEN 2 ELSE 8
Step(S, e) ==
  CASE e.op = "dec" -> IF e.t = SignedText(e) THEN {S} ELSE {}
    \* zero padded to at least n characters, sign first
    [] e.op = "decz" -> IF e.t = (IF e.neg THEN <<45>> \o PadLeft(Text(e.abs, 10, TRUE), e.c, e.n - 1) ELSE PadLeft(Text(e.abs, 10, TRUE), e.c, e.n))
                        THEN {S} ELSE {}
    [] e.op = "pow2" ->      \* hex and binary, with or without the leading zeros of the type
         LET t == Text(e.abs, e.base, e.up) IN
         IF e.t = (IF e.withZero THEN PadLeft(t, 48, DigitsPerByte(e.base) * (e.bits \div 8)) ELSE t) THEN {S} ELSE {}
    \* into a caller's buffer of n bytes: right aligned; 0 written reports that it does not fit
    [] e.op = "buf" ->
         LET t == IF e.base = 10 THEN SignedText(e) ELSE Text(e.abs, e.base, e.up) IN
         IF /\ e.guard
            /\ (IF Len(t) <= e.n THEN e.w = Len(t) /\ e.t = t ELSE e.w = 0)
         THEN {S} ELSE {}
    \* exactly n digits of the value into a caller's buffer (n at least the needed length)
    [] e.op = "fixed" -> IF e.guard /\ e.len = Len(Text(e.abs, e.base, e.up)) /\ e.t = PadLeft(Text(e.abs, e.base, e.up), 48, e.n) THEN {S} ELSE {}
    [] e.op = "back" -> IF e.ok THEN {S} ELSE {}    \* parsing the text gives the value back
    [] OTHER -> {}
=============================================================================
