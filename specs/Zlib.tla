-------------------------------- MODULE Zlib --------------------------------
(* P21: a compressor and a decompressor are the two ends of a byte channel.   *)
(* The coding in between is the environment (the system zlib); what is        *)
(* specified is what goes in, what comes out, when the end is reported and    *)
(* that a damaged stream is never taken for a finished one.                   *)
EXTENDS Bytes
InitZ == [w |-> <<>>, fin |-> FALSE, kind |-> "none", got |-> 0, bad |-> <<>>, dead |-> FALSE]
Rest(S) == SubSeq(S.w, S.got + 1, Len(S.w))
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* what the decompressor may still deliver *)
Deliver(S, r) ==       \* r: bytes handed out
  IF S.kind = "flip" THEN {[S EXCEPT !.bad = @ \o r]}
  ELSE IF IsPre(r, Rest(S)) THEN {[S EXCEPT !.got = @ + Len(r)]} ELSE {}
Read(S, e) ==
  IF e.thrown THEN (IF S.kind = "good" THEN {} ELSE {[S EXCEPT !.dead = TRUE]})
  ELSE IF Len(e.r) > e.k THEN {}
  ELSE IF e.k = 0 THEN {S}
  ELSE IF e.r = <<>>   \* the end
       THEN CASE S.kind = "good" -> IF Rest(S) = <<>> THEN {S} ELSE {}
              [] S.kind = "cut" -> {}
              [] S.kind = "flip" -> IF S.bad = S.w THEN {S} ELSE {}
       ELSE Deliver(S, e.r)
Exact(S, e) ==
  IF e.thrown THEN (IF S.kind # "good" \/ Len(Rest(S)) < e.k THEN {[S EXCEPT !.dead = TRUE]} ELSE {})
  ELSE IF Len(e.r) = e.k THEN Deliver(S, e.r) ELSE {}
Step(S, e) ==
  CASE e.op = "w" -> IF S.fin THEN {} ELSE {[S EXCEPT !.w = @ \o e.data]}
    [] e.op = "fin" -> {[S EXCEPT !.fin = TRUE]}
    [] e.op = "out" -> \* the finished output as decoded by the reference decoder: nothing missing, nothing left over
         IF S.fin /\ e.ok /\ e.dec = S.w /\ e.left = 0 THEN {S} ELSE {}
    [] e.op = "open" -> {[S EXCEPT !.kind = e.kind, !.got = 0, !.bad = <<>>, !.dead = FALSE]}
    [] e.op = "rd" -> IF S.dead THEN {} ELSE Read(S, e)
    [] e.op = "xrd" -> IF S.dead THEN {} ELSE Exact(S, e)
    [] e.op = "empty" -> \* reporting the end early would lose data
         IF e.r /\ ~(CASE S.kind = "good" -> Rest(S) = <<>> [] S.kind = "cut" -> FALSE [] S.kind = "flip" -> S.bad = S.w) THEN {}
         ELSE IF ~e.r /\ e.after0 THEN {} ELSE {S}
    [] e.op = "zc" -> \* one-shot: 0 exactly when it does not fit
         IF e.r = 0 THEN (IF e.max < e.need THEN {S} ELSE {})
         ELSE IF e.r <= e.max /\ e.ok /\ e.dec = e.m THEN {S} ELSE {}
    [] e.op = "zu" ->
         IF e.thrown THEN (IF e.kind = "good" /\ e.max >= Len(e.m) THEN {} ELSE {S})
         ELSE IF e.kind # "cut" /\ e.r = e.m /\ Len(e.m) <= e.max THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
