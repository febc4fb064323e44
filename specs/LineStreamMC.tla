----------------------------- MODULE LineStreamMC -----------------------------
(* The buffering algorithm (a buffer of 2*Max bytes refilled by reads of any  *)
(* size) refines the line sequence, for every text over {x, CR, LF} up to     *)
(* MaxLen, every limit in Maxes and every sequence of short reads.            *)
EXTENDS LineStream, TLC
CONSTANTS MaxLen, Maxes, Emitting
VARIABLES text, max, buf, rpos, S, eof, chunks, res
Texts == UNION {[1 .. n -> {120, CR, LF}] : n \in 0 .. MaxLen}
Init == /\ text \in Texts /\ max \in Maxes /\ buf = <<>> /\ rpos = 0 /\ eof = FALSE
        /\ S = InitLS(text, max) /\ chunks = <<>> /\ res = [op |-> "none"]
Done == eof \/ res.op = "throw"
\* one call of next() ends: the observed event
Emit(ev, b, e) == /\ S' \in Step(S, ev) /\ buf' = b /\ eof' = e /\ res' = IF ev.ret = 2 THEN [op |-> "throw"] ELSE res
HasLF == FirstIn(buf, 1, {LF}) <= Len(buf)
TakeLine == /\ ~Done /\ HasLF
            /\ LET e == FirstIn(buf, 1, {LF})
                   l == SubSeq(buf, 1, IF e > 1 /\ buf[e - 1] = CR THEN e - 2 ELSE e - 1)
               IN IF Len(l) > max THEN Emit([op |-> "next", ret |-> 2], buf, eof)
                  ELSE Emit([op |-> "next", ret |-> 1, line |-> l], SubSeq(buf, e + 1, Len(buf)), eof)
            /\ UNCHANGED <<text, max, rpos, chunks>>
Refill == /\ ~Done /\ ~HasLF
          /\ LET room == 2 * max - Len(buf)
                 left == Len(text) - rpos IN
             IF room = 0 \/ left = 0
             THEN /\ UNCHANGED <<text, max, rpos, chunks>>
                  /\ IF buf = <<>> THEN Emit([op |-> "next", ret |-> 0], buf, TRUE)
                     ELSE IF Len(buf) > max THEN Emit([op |-> "next", ret |-> 2], buf, TRUE)
                     ELSE Emit([op |-> "next", ret |-> 1, line |-> buf], <<>>, TRUE)
             ELSE \E n \in 1 .. Min2(room, left) :
                  /\ buf' = buf \o SubSeq(text, rpos + 1, rpos + n) /\ rpos' = rpos + n
                  /\ chunks' = Append(chunks, n)
                  /\ UNCHANGED <<text, max, S, eof, res>>
Next == TakeLine \/ Refill
\* Emit's S' \in Step(...) disables the step when the specification rejects it: then the run is stuck before Done
NoStuck == Done \/ ENABLED Next
\* everything delivered unless the limit was hit
Complete == eof /\ res.op # "throw" => S.pos = Len(text)
Print0 == (Emitting /\ Done) => PrintT(<<"GEN", <<max, Len(text)>> \o text \o chunks>>)
=============================================================================
