------------------------------ MODULE SocketMC ------------------------------
(* Three sockets: 1 listens, 2 connects, 3 accepts, with moves between them.  *)
(* Descriptors are explicit: every descriptor given out by the system is held *)
(* by exactly one socket or has been closed, once. sent/got follow the bytes  *)
(* of the first connection through partial transfers.                         *)
EXTENDS Socket, TLC
CONSTANT N
VARIABLES S, fd, next, closes, sent, got, busy, hist
vars == <<S, fd, next, closes, sent, got, busy, hist>>
K == 1 .. 3
Init == S = InitN(3) /\ fd = [k \in K |-> 0] /\ next = 1 /\ closes = <<>> /\ sent = <<>> /\ got = <<>> /\ busy = <<>> /\ hist = <<>>
Closing(k) == closes' = IF fd[k] = 0 THEN closes ELSE [closes EXCEPT ![fd[k]] = @ + 1]
Fresh(k) == fd' = [fd EXCEPT ![k] = next] /\ next' = next + 1
Io == UNCHANGED <<sent, got, busy>>
Try(e) == Step(S, e)
Bind == LET e == [op |-> "bind", k |-> 1, hard |-> FALSE, thrown |-> FALSE] IN
   S' \in Try(e) /\ Fresh(1) /\ closes' = Append(IF fd[1] = 0 THEN closes ELSE [closes EXCEPT ![fd[1]] = @ + 1], 0) /\ Io
Connect(k) == LET e == [op |-> "connect", k |-> k, l |-> Len(S.lis), hard |-> FALSE, intr |-> FALSE, thrown |-> FALSE] IN
   S' \in Try(e) /\ Fresh(k) /\ closes' = Append(closes, 0) /\ Io
Accept(j) == LET e == [op |-> "accept", k |-> 1, j |-> j, hard |-> FALSE, intr |-> FALSE, addr |-> TRUE, thrown |-> FALSE] IN
   S' \in Try(e) /\ Fresh(j) /\ closes' = Append(IF fd[j] = 0 THEN closes ELSE [closes EXCEPT ![fd[j]] = @ + 1], 0) /\ Io
Close(k) == fd[k] # 0 /\ S' = Drop(S, k) /\ Closing(k) /\ fd' = [fd EXCEPT ![k] = 0] /\ UNCHANGED next /\ Io
Move(k, j) == S' = MoveTo(Drop(S, k), k, j) /\ Closing(k) /\ fd' = [fd EXCEPT ![k] = fd[j], ![j] = 0] /\ UNCHANGED next /\ Io
Write == CanSend(S, 2) /\ S.h[2].c = 1 /\ S.h[2].s = 1 /\ LET x == <<Len(hist) + 1, Len(hist) + 101>> IN busy' = x /\ sent' = sent \o x /\ UNCHANGED <<S, fd, next, closes, got>>
Read == \E k \in K : S.h[k].st = "open" /\ S.h[k].c = 1 /\ S.h[k].s = 2 /\ In(S, k) # <<>> /\ \E n \in 1 .. Len(In(S, k)) : got' = got \o SubSeq(In(S, k), 1, n) /\ S' = Take(S, k, n) /\ UNCHANGED <<fd, next, closes, sent, busy>>
\* one system call of the write loop, moving some of the bytes
Push == busy # <<>> /\ \E n \in 1 .. Len(busy) : S' = Give(S, 2, SubSeq(busy, 1, n)) /\ busy' = SubSeq(busy, n + 1, Len(busy)) /\ UNCHANGED <<fd, next, closes, sent, got, hist>>
WaitClose == S.h[2].st = "open" /\ S' = [S EXCEPT !.con[S.h[2].c].fin[S.h[2].s] = TRUE] /\ UNCHANGED <<fd, next, closes, sent, got, busy>>
Op(c) == CASE c = 1 -> Bind [] c = 2 -> Connect(2) [] c = 3 -> Accept(3) [] c = 4 -> Write [] c = 5 -> Read [] c = 6 -> Close(2) [] c = 7 -> Close(3)
   [] c = 8 -> Close(1) [] c = 9 -> Move(3, 2) [] c = 10 -> Move(1, 3) [] c = 11 -> Close(2) [] c = 12 -> Connect(3) [] c = 13 -> WaitClose [] c = 14 -> Accept(2)
Next == Push \/ (busy = <<>> /\ Len(hist) < N /\ \E c \in 1 .. 14 : Op(c) /\ hist' = Append(hist, c))
OneOwner == \A d \in 1 .. Len(closes) : closes[d] + Cardinality({k \in K : fd[k] = d}) = 1
Held == \A k \in K : (fd[k] # 0) <=> S.h[k].st # "none"
InFlight == IF S.con = <<>> THEN <<>> ELSE S.con[1].buf[2]
Stream == got \o InFlight \o busy = sent
Emit == Len(hist) >= 3 /\ busy = <<>> => PrintT(<<"GEN", hist>>)
=============================================================================
