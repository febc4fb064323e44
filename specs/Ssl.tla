-------------------------------- MODULE Ssl ---------------------------------
(* P40: a TLS client connection. The state is what peer and network have done *)
(* so far: bytes sent by the peer and not yet read (rx), whether it ended the *)
(* stream (eof) or the connection broke (bad), how many bytes may still be    *)
(* written before it breaks (room, -1: no limit). open: connected and shaken. *)
EXTENDS Integers, Sequences
None == [obj |-> FALSE, open |-> FALSE, rx |-> <<>>, eof |-> FALSE, bad |-> FALSE, room |-> -1]
Fresh == [None EXCEPT !.obj = TRUE]
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Prefix(p, s) == Len(p) <= Len(s) /\ p = SubSeq(s, 1, Len(p))
\* open descriptors of the client
Fds(S) == IF S.open THEN 1 ELSE 0
Can(S, n) == S.room = -1 \/ n <= S.room
Step(S, e) ==
  CASE e.op = "new" -> IF ~S.obj /\ e.thrown = e.refuse /\ e.fds = 0 THEN {IF e.refuse THEN None ELSE Fresh} ELSE {}
    \* tcp, setfd, shake: what the network and the library answer; all three must succeed. A connected object refuses and stays as it was.
    [] e.op = "conn" -> LET ok == ~S.open /\ e.tcp /\ e.setfd /\ e.shake
                            T == IF S.open THEN S ELSE IF ok THEN [Fresh EXCEPT !.open = TRUE] ELSE Fresh IN
                        IF S.obj /\ e.thrown = ~ok /\ e.fds = Fds(T) THEN {T} ELSE {}
    [] e.op = "peer" -> {[S EXCEPT !.rx = @ \o e.d]}
    [] e.op = "pend" -> {[S EXCEPT !.eof = TRUE]}
    [] e.op = "pbreak" -> {[S EXCEPT !.bad = TRUE]}
    [] e.op = "room" -> {[S EXCEPT !.room = e.n]}
    \* some bytes of the stream, at least one if there are any; nothing at its end; an error otherwise
    [] e.op = "some" -> LET k == Len(e.d) IN
         IF ~S.open \/ (S.rx = <<>> /\ ~S.eof) THEN IF e.thrown /\ k = 0 /\ ~e.over THEN {S} ELSE {}
         ELSE IF ~e.thrown /\ ~e.over /\ k <= e.n /\ Prefix(e.d, S.rx) /\ (k = 0 => S.rx = <<>>) THEN {[S EXCEPT !.rx = Drop(@, k)]} ELSE {}
    \* all bytes or an error
    [] e.op = "read" ->
         IF e.n = 0 THEN IF ~e.thrown /\ ~e.over /\ e.d = <<>> THEN {S} ELSE {}
         ELSE IF S.open /\ Len(S.rx) >= e.n THEN IF ~e.thrown /\ ~e.over /\ e.d = SubSeq(S.rx, 1, e.n) THEN {[S EXCEPT !.rx = Drop(@, e.n)]} ELSE {}
         ELSE IF e.thrown /\ ~e.over THEN {[S EXCEPT !.rx = IF S.open THEN <<>> ELSE @]} ELSE {}
    \* the peer receives exactly the bytes, or their beginning before an error
    [] e.op = "write" -> LET ok == Len(e.d) = 0 \/ (S.open /\ Can(S, Len(e.d))) IN
         IF e.thrown = ~ok /\ e.got = (IF ok THEN e.d ELSE IF S.open THEN SubSeq(e.d, 1, S.room) ELSE <<>>)
         THEN {[S EXCEPT !.room = IF @ = -1 \/ ~S.open THEN @ ELSE @ - Len(e.got)]} ELSE {}
    \* shut: -1 the end could not be sent, 0 sent, 1 sent and the peer's received. Closed in any case.
    [] e.op = "close" -> LET T == IF S.open THEN Fresh ELSE S IN
         IF e.thrown = (S.open /\ e.shut < 0 /\ ~e.dont) /\ e.fds = 0 /\ (S.open => e.said) THEN {T} ELSE {}
    [] e.op = "free" -> IF S.obj /\ e.fds = 0 /\ e.live = 0 /\ (S.open => e.said) THEN {None} ELSE {}
    \* the program ends normally
    [] e.op = "exit" -> IF e.st = 0 THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
