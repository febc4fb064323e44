-------------------------------- MODULE File --------------------------------
(* P22: files are byte arrays; each open handle has a position. The system    *)
(* may transfer fewer bytes than asked, interrupt a call, or fail: e.hard     *)
(* tells that a system call made for this operation failed for good.          *)
EXTENDS Bytes
None == [ex |-> FALSE, d |-> <<>>]
Closed == [open |-> FALSE, m |-> "", f |-> "", p |-> 0, own |-> TRUE]
InitF(names, hs) == [fs |-> [n \in names |-> None], h |-> [k \in hs |-> Closed], left |-> 0]
Zero(n) == [i \in 1 .. n |-> 0]
\* d with x written at offset p (a hole reads as zero)
Put(d, p, x) == IF x = <<>> THEN d ELSE
  LET a == IF Len(d) < p THEN d \o Zero(p - Len(d)) ELSE SubSeq(d, 1, p) IN a \o x \o SubSeq(d, p + Len(x) + 1, Len(d))
ModeOk(e) == e.in # e.out /\ (e.in => ~e.app /\ ~e.trunc) /\ ~(e.app /\ e.trunc)
Data(S, k) == S.fs[S.h[k].f].d
Rest(S, k) == SubSeq(Data(S, k), S.h[k].p + 1, Len(Data(S, k)))
\* the bytes x reach the file through handle k
Wrote(S, k, x) ==
  LET H == S.h[k] at == IF H.m = "a" THEN Len(Data(S, k)) ELSE H.p IN
  IF x = <<>> THEN S ELSE [S EXCEPT !.fs[H.f].d = Put(@, at, x), !.h[k].p = at + Len(x)]
CanW(H) == H.open /\ H.m \in {"w", "a", "rw"}
CanR(H) == H.open /\ H.m \in {"r", "rw"}
OpenCount(S, ks) == LET RECURSIVE N(_)
                        N(X) == IF X = {} THEN 0 ELSE LET k == CHOOSE k \in X : TRUE IN (IF S.h[k].open THEN 1 ELSE 0) + N(X \ {k})
                    IN N(ks)
Step(S, e) ==
  CASE e.op = "open" ->
         LET H == S.h[e.k] ok == ~H.open /\ ModeOk(e) /\ ~e.hard /\ (e.in => S.fs[e.f].ex) IN
         IF e.thrown THEN (IF ok THEN {} ELSE {S})
         ELSE IF ~ok THEN {}
         ELSE LET m == IF e.in THEN "r" ELSE IF e.app THEN "a" ELSE "w"
                  d == IF m = "w" THEN <<>> ELSE S.fs[e.f].d IN
              {[S EXCEPT !.fs[e.f] = [ex |-> TRUE, d |-> d], !.h[e.k] = [open |-> TRUE, m |-> m, f |-> e.f, p |-> IF m = "a" THEN Len(d) ELSE 0, own |-> TRUE]]}
    [] e.op = "adopt" ->   \* constructed on a descriptor the caller opened for reading and writing
         {[S EXCEPT !.fs[e.f].ex = TRUE, !.h[e.k] = [open |-> TRUE, m |-> "rw", f |-> e.f, p |-> 0, own |-> FALSE]]}
    [] e.op = "write" ->
         IF e.data = <<>> THEN (IF e.thrown THEN {} ELSE {S})
         ELSE IF ~CanW(S.h[e.k]) THEN (IF e.thrown THEN {S} ELSE {})
         ELSE IF e.thrown THEN (IF e.hard THEN {Wrote(S, e.k, SubSeq(e.data, 1, n)) : n \in 0 .. Len(e.data) - 1} ELSE {})
         ELSE IF e.hard THEN {} ELSE {Wrote(S, e.k, e.data)}
    [] e.op = "some" ->
         IF ~CanR(S.h[e.k]) THEN (IF e.thrown THEN {S} ELSE {})
         ELSE IF e.thrown THEN (IF e.hard THEN {S} ELSE {})
         ELSE IF e.hard THEN {}
         ELSE IF e.r = <<>> THEN (IF e.n = 0 \/ Rest(S, e.k) = <<>> THEN {S} ELSE {})
         ELSE IF Len(e.r) <= e.n /\ IsPrefixOf(e.r, Rest(S, e.k)) THEN {[S EXCEPT !.h[e.k].p = @ + Len(e.r)]} ELSE {}
    [] e.op = "read" ->
         IF e.n = 0 THEN (IF e.thrown THEN {} ELSE {S})
         ELSE IF ~CanR(S.h[e.k]) THEN (IF e.thrown THEN {S} ELSE {})
         ELSE IF e.thrown THEN (IF e.hard \/ Len(Rest(S, e.k)) < e.n
                                THEN {[S EXCEPT !.h[e.k].p = @ + j] : j \in 0 .. Min2(e.n, Len(Rest(S, e.k)))} ELSE {})
         ELSE IF ~e.hard /\ Len(e.r) = e.n /\ IsPrefixOf(e.r, Rest(S, e.k)) THEN {[S EXCEPT !.h[e.k].p = @ + e.n]} ELSE {}
    [] e.op = "seek" ->
         LET H == S.h[e.k] to == CASE e.dir = 0 -> e.to [] e.dir = 1 -> H.p + e.to [] e.dir = 2 -> (IF H.open THEN Len(Data(S, e.k)) + e.to ELSE 0)
             ok == H.open /\ to >= 0 IN
         IF e.thrown THEN (IF ok THEN {} ELSE {S}) ELSE IF ok THEN {[S EXCEPT !.h[e.k].p = to]} ELSE {}
    [] e.op = "size" ->
         IF e.thrown THEN (IF S.h[e.k].open THEN {} ELSE {S})
         ELSE IF S.h[e.k].open /\ e.r = Len(Data(S, e.k)) THEN {S} ELSE {}
    [] e.op = "sync" -> \* reaches the system for a file open for writing; failure is reported
         IF e.thrown # (e.hard /\ CanW(S.h[e.k])) THEN {}
         ELSE IF CanW(S.h[e.k]) /\ ~e.hard /\ ~e.synced THEN {} ELSE {S}
    [] e.op = "close" ->
         IF e.thrown # (e.hard /\ S.h[e.k].open) THEN {} ELSE {[S EXCEPT !.h[e.k] = Closed]}
    [] e.op = "del" ->      \* destruction closes a file it opened, and synchronises what was written
         IF CanW(S.h[e.k]) /\ S.h[e.k].own /\ ~e.hard /\ ~e.synced THEN {}
         ELSE {[S EXCEPT !.h[e.k] = Closed, !.left = @ + (IF S.h[e.k].open /\ ~S.h[e.k].own THEN 1 ELSE 0)]}
    [] e.op = "isopen" -> IF e.r = S.h[e.k].open THEN {S} ELSE {}
    [] e.op = "fds" -> IF e.r = S.left + OpenCount(S, DOMAIN S.h) THEN {S} ELSE {}
    [] e.op = "cat" -> \* the file as seen by other means
         IF e.ex = S.fs[e.f].ex /\ (e.ex => e.d = S.fs[e.f].d) THEN {S} ELSE {}
    [] e.op = "mmap" -> \* a map shows the content; an empty file is just empty
         IF e.thrown THEN (IF e.hard \/ ~S.fs[e.f].ex THEN {S} ELSE {})
         ELSE IF ~e.hard /\ S.fs[e.f].ex /\ e.d = S.fs[e.f].d /\ e.size = Len(e.d) THEN {S} ELSE {}
    [] e.op = "fsize" -> IF e.thrown THEN (IF S.fs[e.f].ex THEN {} ELSE {S}) ELSE IF S.fs[e.f].ex /\ e.r = Len(S.fs[e.f].d) THEN {S} ELSE {}
    [] e.op = "exist" -> IF e.r = S.fs[e.f].ex THEN {S} ELSE {}
    [] e.op = "rename" -> \* never over an existing file
         LET ok == S.fs[e.f].ex /\ ~S.fs[e.to].ex IN
         IF e.thrown THEN (IF ok THEN {} ELSE {S})
         ELSE IF ok THEN {[S EXCEPT !.fs[e.to] = S.fs[e.f], !.fs[e.f] = None, !.h = [k \in DOMAIN @ |-> IF @[k].open /\ @[k].f = e.f THEN [@[k] EXCEPT !.f = e.to] ELSE @[k]]]} ELSE {}
    [] e.op = "remove" -> IF e.thrown THEN (IF S.fs[e.f].ex THEN {} ELSE {S}) ELSE IF S.fs[e.f].ex THEN {[S EXCEPT !.fs[e.f] = None]} ELSE {}
    [] OTHER -> {}
=============================================================================
