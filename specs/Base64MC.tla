------------------------------- MODULE Base64MC -------------------------------
(* The byte-at-a-time encoder (carry of 0, 1 or 2 bytes, line position)       *)
(* refines the arithmetic definition, and decoding inverts encoding.          *)
EXTENDS Base64, TLC
CONSTANTS MaxLen, Bs, Maxes
VARIABLES in, out, idx, remain, pos, max, mode
Init == in = <<>> /\ out = <<>> /\ idx = 0 /\ remain = 0 /\ pos = 0 /\ max \in Maxes /\ mode \in {0, 1, 2}
Emit(chars, p) == IF max > 0 /\ p = max THEN out \o chars \o EndLine(mode) ELSE out \o chars
NewPos(p) == IF max > 0 /\ p = max THEN 0 ELSE p
Feed(c) ==
  /\ in' = Append(in, c)
  /\ CASE idx = 0 -> out' = Emit(<<Letter(c \div 4)>>, pos + 1) /\ pos' = NewPos(pos + 1) /\ remain' = (c % 4) * 16 /\ idx' = 1
       [] idx = 1 -> out' = Emit(<<Letter(remain + c \div 16)>>, pos + 1) /\ pos' = NewPos(pos + 1) /\ remain' = (c % 16) * 4 /\ idx' = 2
       [] idx = 2 -> out' = Emit(<<Letter(remain + c \div 64), Letter(c % 64)>>, pos + 2) /\ pos' = NewPos(pos + 2) /\ remain' = 0 /\ idx' = 0
  /\ UNCHANGED <<max, mode>>
Next == Len(in) < MaxLen /\ \E c \in Bs : Feed(c)
Finish == LET tail == CASE idx = 0 -> <<>> [] idx = 1 -> <<Letter(remain), Pad, Pad>> [] idx = 2 -> <<Letter(remain), Pad>>
              p == IF idx = 0 THEN pos ELSE pos + (IF idx = 1 THEN 3 ELSE 2)
          IN out \o tail \o (IF max > 0 /\ p > 0 THEN EndLine(mode) ELSE <<>>)
Refines == Finish = EncText(in, max, mode)
RoundTrip == Decode(EncText(in, max, mode)) = in
Known == /\ PlainText(<<77, 97, 110>>) = <<84, 87, 70, 117>>       \* "Man" -> "TWFu"
         /\ PlainText(<<77, 97>>) = <<84, 87, 69, Pad>> /\ PlainText(<<77>>) = <<84, 81, Pad, Pad>>
ASSUME Known
Gen == Len(in) >= MaxLen - 1 => PrintT(<<"GEN", <<max, mode>> \o in>>)
=============================================================================
