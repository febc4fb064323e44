------------------------------- MODULE SslMC --------------------------------
(* Every history of connecting, peer actions, reads, writes and closes: the   *)
(* implementation's answers are constructed here and must be what Step allows *)
(* (an answer exists in every state, and it is the only one up to how much a  *)
(* partial read yields). Ghosts: all bytes sent and all bytes delivered since *)
(* the last connect; delivered is always the beginning of sent.               *)
EXTENDS Ssl, TLC
CONSTANTS Depth
VARIABLES S, sent, given, asked, arrived, h
vars == <<S, sent, given, asked, arrived, h>>
Init == S = Fresh /\ sent = <<>> /\ given = <<>> /\ asked = <<>> /\ arrived = <<>> /\ h = <<>>
More == Len(h) < 3 * Depth
Conn(k) == \* k: 0 all well, 1 no tcp, 2 no fd, 3 no handshake
  /\ \E th \in BOOLEAN, n \in 0 .. 1 : S' \in Step(S, [op |-> "conn", tcp |-> k # 1, setfd |-> k # 2, shake |-> k # 3, thrown |-> th, fds |-> n])
  /\ IF S.open THEN UNCHANGED <<sent, given, asked, arrived>> ELSE sent' = <<>> /\ given' = <<>> /\ asked' = <<>> /\ arrived' = <<>>
  /\ h' = h \o <<1, k, 0>>
Peer(n) == S.open /\ ~S.eof /\ ~S.bad /\ LET d == [i \in 1 .. n |-> (Len(sent) + i) % 7] IN S' \in Step(S, [op |-> "peer", d |-> d]) /\ sent' = sent \o d /\ UNCHANGED <<given, asked, arrived>> /\ h' = h \o <<2, n, 0>>
End == S.open /\ ~S.eof /\ ~S.bad /\ S' \in Step(S, [op |-> "pend"]) /\ UNCHANGED <<sent, given, asked, arrived>> /\ h' = h \o <<3, 0, 0>>
Break == S.open /\ ~S.eof /\ ~S.bad /\ S' \in Step(S, [op |-> "pbreak"]) /\ UNCHANGED <<sent, given, asked, arrived>> /\ h' = h \o <<4, 0, 0>>
Room(n) == S.open /\ S.room = -1 /\ S' \in Step(S, [op |-> "room", n |-> n]) /\ UNCHANGED <<sent, given, asked, arrived>> /\ h' = h \o <<5, n, 0>>
Ready == ~S.open \/ S.rx # <<>> \/ S.eof \/ S.bad
Some(n) == Ready /\ \E th \in BOOLEAN, k \in 0 .. n : k <= Len(S.rx) /\ S' \in Step(S, [op |-> "some", n |-> n, d |-> SubSeq(S.rx, 1, k), thrown |-> th, over |-> FALSE])
  /\ given' = given \o SubSeq(S.rx, 1, Len(S.rx) - Len(S'.rx)) /\ UNCHANGED <<sent, asked, arrived>> /\ h' = h \o <<6, n, 0>>
Read(n) == (Ready \/ n = 0) /\ (Len(S.rx) >= n \/ S.eof \/ S.bad \/ ~S.open) /\ \E th \in BOOLEAN : S' \in Step(S, [op |-> "read", n |-> n, d |-> IF th \/ Len(S.rx) < n THEN <<>> ELSE SubSeq(S.rx, 1, n), thrown |-> th, over |-> FALSE])
  /\ given' = given \o SubSeq(S.rx, 1, Len(S.rx) - Len(S'.rx)) /\ UNCHANGED <<sent, asked, arrived>> /\ h' = h \o <<7, n, 0>>
Write(n) == LET d == [i \in 1 .. n |-> (Len(asked) + i) % 5] IN \E th \in BOOLEAN, k \in 0 .. n : S' \in Step(S, [op |-> "write", d |-> d, got |-> SubSeq(d, 1, k), thrown |-> th])
  /\ (arrived' = arrived \o SubSeq(d, 1, k)) /\ asked' = asked \o (IF th THEN SubSeq(d, 1, k) ELSE d) /\ UNCHANGED <<sent, given>> /\ h' = h \o <<8, n, 0>>
Close(s, dont) == \E th \in BOOLEAN : S' \in Step(S, [op |-> "close", shut |-> s, dont |-> dont, thrown |-> th, fds |-> 0, said |-> S.open]) /\ UNCHANGED <<sent, given, asked, arrived>> /\ h' = h \o <<9, s + 2, IF dont THEN 1 ELSE 0>>
Next == More /\ \/ \E k \in 0 .. 3 : Conn(k)
                \/ \E n \in {1, 3} : Peer(n)
                \/ End \/ Break \/ \E n \in {0, 2} : Room(n)
                \/ \E n \in {1, 2} : Some(n)
                \/ \E n \in {0, 2, 3} : Read(n)
                \/ \E n \in {0, 1, 3} : Write(n)
                \/ \E s \in {-1, 0} : Close(s, s = 0)
                \/ Close(-1, TRUE)
Delivered == S.open => given \o S.rx = sent
Arrived == arrived = asked
Quiet == ~S.open => Fds(S) = 0
\* a closed object has no memory of the connection before
NoMemory == ~S.open => S = Fresh
\* an answer exists, and whether it is an error is determined
Determined == LET
    th(e) == {t \in BOOLEAN : Step(S, [e EXCEPT !.thrown = t]) # {}} IN
  /\ \A k \in 0 .. 3 : \E n \in 0 .. 1 : Step(S, [op |-> "conn", tcp |-> k # 1, setfd |-> k # 2, shake |-> k # 3, thrown |-> S.open \/ k # 0, fds |-> n]) # {}
  /\ \A s \in {-1, 0, 1}, dont \in BOOLEAN : \E t \in BOOLEAN : th([op |-> "close", shut |-> s, dont |-> dont, thrown |-> FALSE, fds |-> 0, said |-> TRUE]) = {t}
  /\ Ready => \E t \in BOOLEAN : (\E k \in 0 .. 2 : k <= Len(S.rx) /\ Step(S, [op |-> "some", n |-> 2, d |-> SubSeq(S.rx, 1, k), thrown |-> t, over |-> FALSE]) # {})
                               /\ (\A k \in 0 .. 2 : k <= Len(S.rx) => Step(S, [op |-> "some", n |-> 2, d |-> SubSeq(S.rx, 1, k), thrown |-> ~t, over |-> FALSE]) = {})
View == <<S, Len(sent), Len(given), Len(arrived), Len(h)>>
Emit == (Len(h) = 3 * Depth) => PrintT(<<"GEN", h>>)
=============================================================================
