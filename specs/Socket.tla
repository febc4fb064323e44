------------------------------- MODULE Socket -------------------------------
(* P30: socket objects, the descriptors they own and the byte streams between *)
(* them. e.hard: a system call made for this operation failed for good;       *)
(* e.intr: one was interrupted where the interface may report that.           *)
EXTENDS Bytes, FiniteSets
NoneH == [st |-> "none", c |-> 0, s |-> 0]
InitN(n) == [h |-> [k \in 1 .. n |-> NoneH], con |-> <<>>, lis |-> <<>>]
NewCon == [buf |-> <<<<>>, <<>>>>, fin |-> <<FALSE, FALSE>>, gone |-> <<FALSE, FALSE>>]
\* side s of connection c goes away
HangUp(con, c, s) == [con EXCEPT ![c].fin[s] = TRUE, ![c].gone[s] = TRUE]
RECURSIVE Hang(_, _)
Hang(con, q) == IF q = <<>> THEN con ELSE Hang(HangUp(con, Head(q), 2), Tail(q))
\* the descriptor of handle k is closed
Drop(S, k) == LET H == S.h[k] IN
  CASE H.st = "open" -> [S EXCEPT !.h[k] = NoneH, !.con = HangUp(@, H.c, H.s)]
    [] H.st = "lst" -> [S EXCEPT !.h[k] = NoneH, !.con = Hang(@, S.lis[H.c].q), !.lis[H.c] = [up |-> FALSE, q |-> <<>>]]
    [] OTHER -> S
Up(S, l) == l \in 1 .. Len(S.lis) /\ S.lis[l].up
In(S, k) == S.con[S.h[k].c].buf[S.h[k].s]
PeerDone(S, k) == S.con[S.h[k].c].fin[3 - S.h[k].s]
Readable(S, k) == LET H == S.h[k] IN
  CASE H.st = "lst" -> S.lis[H.c].q # <<>> [] H.st = "open" -> In(S, k) # <<>> \/ PeerDone(S, k) [] OTHER -> FALSE
Take(S, k, n) == [S EXCEPT !.con[S.h[k].c].buf[S.h[k].s] = SubSeq(@, n + 1, Len(@))]
Give(S, k, x) == IF x = <<>> THEN S ELSE [S EXCEPT !.con[S.h[k].c].buf[3 - S.h[k].s] = @ \o x]
CanSend(S, k) == S.h[k].st = "open" /\ ~S.con[S.h[k].c].fin[S.h[k].s] /\ ~S.con[S.h[k].c].gone[3 - S.h[k].s]
Owners(S) == {k \in DOMAIN S.h : S.h[k].st # "none"}
MoveTo(S, k, j) == [S EXCEPT !.h[k] = S.h[j], !.h[j] = NoneH]
Mapped == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255>>
Full(a) == IF Len(a) = 4 THEN Mapped \o a ELSE a     \* an IPv4 address as IPv6
Step(S, e) ==
  CASE e.op = "bind" -> LET D == Drop(S, e.k) IN
         IF e.thrown THEN (IF e.hard THEN {D} ELSE {})
         ELSE IF e.hard THEN {} ELSE {[D EXCEPT !.lis = Append(@, [up |-> TRUE, q |-> <<>>]), !.h[e.k] = [st |-> "lst", c |-> Len(D.lis) + 1, s |-> 0]]}
    [] e.op = "connect" -> \* l: number of the listener addressed; a failed attempt leaves no descriptor
         IF S.h[e.k].st # "none" THEN (IF e.thrown THEN {S} ELSE {})
         ELSE IF e.thrown THEN (IF e.hard \/ e.intr \/ ~Up(S, e.l) THEN {S} ELSE {})
         ELSE IF e.hard \/ ~Up(S, e.l) THEN {}
         ELSE {[S EXCEPT !.con = Append(@, NewCon), !.lis[e.l].q = Append(@, Len(S.con) + 1), !.h[e.k] = [st |-> "open", c |-> Len(S.con) + 1, s |-> 1]]}
    [] e.op = "accept" -> \* from listener k into handle j
         LET D == Drop(S, e.j) L == S.h[e.k] IN
         IF e.thrown THEN (IF e.hard \/ e.intr THEN {D} ELSE {})
         ELSE IF e.hard \/ D.h[e.k].st # "lst" \/ D.lis[L.c].q = <<>> \/ ~e.addr THEN {}
         ELSE {[D EXCEPT !.lis[L.c].q = Tail(@), !.h[e.j] = [st |-> "open", c |-> Head(D.lis[L.c].q), s |-> 2]]}
    [] e.op = "write" ->
         IF e.data = <<>> THEN (IF e.ok THEN {S} ELSE {})
         ELSE IF ~CanSend(S, e.k) THEN (IF e.ok THEN {} ELSE {S})
         ELSE IF ~e.ok THEN (IF e.hard THEN {Give(S, e.k, SubSeq(e.data, 1, n)) : n \in 0 .. Len(e.data) - 1} ELSE {})
         ELSE IF e.hard THEN {} ELSE {Give(S, e.k, e.data)}
    [] e.op = "some" ->
         IF S.h[e.k].st # "open" THEN (IF e.thrown THEN {S} ELSE {})
         ELSE IF e.thrown THEN (IF e.hard THEN {S} ELSE {})
         ELSE IF e.hard THEN {}
         ELSE IF e.r = <<>> THEN (IF e.n = 0 \/ (In(S, e.k) = <<>> /\ PeerDone(S, e.k)) THEN {S} ELSE {})
         ELSE IF Len(e.r) <= e.n /\ IsPrefixOf(e.r, In(S, e.k)) THEN {Take(S, e.k, Len(e.r))} ELSE {}
    [] e.op = "read" ->
         IF e.n = 0 THEN (IF e.thrown THEN {} ELSE {S})
         ELSE IF S.h[e.k].st # "open" THEN (IF e.thrown THEN {S} ELSE {})
         ELSE IF e.thrown THEN (IF e.hard \/ (Len(In(S, e.k)) < e.n /\ PeerDone(S, e.k)) THEN {Take(S, e.k, j) : j \in 0 .. Min2(e.n, Len(In(S, e.k)))} ELSE {})
         ELSE IF ~e.hard /\ Len(e.r) = e.n /\ IsPrefixOf(e.r, In(S, e.k)) THEN {Take(S, e.k, e.n)} ELSE {}
    [] e.op = "flow" -> \* what the system holds of the two streams of the connection
         IF S.h[e.k].st = "open" /\ e.in = In(S, e.k) /\ e.out = S.con[S.h[e.k].c].buf[3 - S.h[e.k].s] THEN {S} ELSE {}
    [] e.op = "shut" -> \* no more data will be sent
         IF e.ok # (S.h[e.k].st = "open" /\ ~e.hard) THEN {} ELSE IF e.ok THEN {[S EXCEPT !.con[S.h[e.k].c].fin[S.h[e.k].s] = TRUE]} ELSE {S}
    [] e.op = "waitclose" -> \* send the end and wait for the peer's; anything else than the peer's end is reported
         IF S.h[e.k].st = "none" THEN (IF e.thrown THEN {} ELSE {S})
         ELSE IF S.h[e.k].st # "open" THEN (IF e.thrown THEN {S} ELSE {})
         ELSE LET F == [S EXCEPT !.con[S.h[e.k].c].fin[S.h[e.k].s] = TRUE] IN
              IF ~e.thrown THEN (IF In(S, e.k) = <<>> /\ PeerDone(S, e.k) /\ ~e.hard THEN {F} ELSE {})
              ELSE IF e.hard THEN {S, F}
              ELSE IF In(S, e.k) # <<>> THEN {Take(F, e.k, 1)} ELSE {}
    [] e.op = "query" -> \* ready within msec? waited: time spent; r as returned, or -1 for an exception or a negative result
         IF S.h[e.k].st = "none" THEN (IF e.r < 0 THEN {S} ELSE {})
         ELSE IF e.r < 0 THEN (IF e.hard \/ e.intr THEN {S} ELSE {})
         ELSE IF e.hard THEN {}
         ELSE IF e.r = 0 THEN (IF ~Readable(S, e.k) /\ (e.waited = e.msec \/ e.intr) THEN {S} ELSE {})
         ELSE IF Readable(S, e.k) THEN {S} ELSE {}
    [] e.op = "close" -> IF e.ok # (S.h[e.k].st = "none" \/ ~e.hard) THEN {} ELSE {Drop(S, e.k)}
    [] e.op = "destroy" -> {Drop(S, e.k)}
    [] e.op = "move" -> \* handle k takes over from handle j, closing what it held
         IF e.k = e.j THEN {Drop(S, e.k), S}
         ELSE IF e.thrown THEN (IF e.hard THEN {Drop(S, e.k)} ELSE {}) ELSE {MoveTo(Drop(S, e.k), e.k, e.j)}
    [] e.op = "valid" -> IF e.r = (S.h[e.k].st # "none") /\ (e.r => ~e.nb) THEN {S} ELSE {}   \* nb: left in non-blocking mode
    [] e.op = "fds" -> IF e.r = Cardinality(Owners(S)) /\ e.bad = 0 THEN {S} ELSE {}          \* descriptors in the system; bad: calls with a descriptor not open
    [] e.op = "opt" -> \* the value given reaches the system and is read back
         IF S.h[e.k].st = "none" \/ e.hard THEN (IF e.thrown THEN {S} ELSE {}) ELSE IF ~e.thrown /\ e.sys = e.x /\ e.back = e.x THEN {S} ELSE {}
    [] e.op = "addr" -> \* address bytes and port given; the same read back (as a mapped address if IPv6 is forced)
         IF Full(e.back) = Full(e.a) /\ (e.v6 => Len(e.back) = 16) /\ e.rport = e.port /\ e.gport = e.port THEN {S} ELSE {}
    [] e.op = "same" -> IF e.r = (Full(e.a) = Full(e.b)) THEN {S} ELSE {}
    [] e.op = "race" -> \* threads closing and taking over one socket: its descriptor ends up with one owner or closed, and is closed once in all
         IF e.owners + e.closed = 1 /\ e.total = 1 /\ e.bad = 0 THEN {S} ELSE {}
    [] OTHER -> {}
=============================================================================
