-------------------------------- MODULE Quit --------------------------------
(* P44: a request to quit (INT, QUIT, ABRT, TERM) reaches the application.    *)
(* cur: the application named last (0: none); run: the signal whose quit() is *)
(* in progress; pend: signals that wait for its end; n: calls of each.        *)
EXTENDS Integers, Sequences, FiniteSets
NA == 3
Sigs == {2, 3, 6, 15}
InitQ == [cur |-> 0, run |-> 0, pend |-> {}, n |-> [a \in 1 .. NA |-> 0]]
Install(S, a) == [S EXCEPT !.cur = a]
Deliver(S, s) == [S EXCEPT !.run = s, !.n[S.cur] = @ + 1]
\* a signal comes: told at once, or after the call in progress; the same signal waits only once
Come(S, s) == IF S.run = 0 THEN Deliver(S, s) ELSE [S EXCEPT !.pend = @ \cup {s}]
Return(S) == IF S.pend = {} THEN {[S EXCEPT !.run = 0]} ELSE {[Deliver(S, s) EXCEPT !.pend = @ \ {s}] : s \in S.pend}
\* one signal from outside, inner ones raised inside the first call; calls: the applications told, top: the most calls in progress at once
Told(S, s, inner) == 1 + Cardinality(inner)
Step(S, e) ==
  CASE e.op = "inst" -> {Install(S, e.a)}
    [] e.op = "sig" -> LET c == IF e.over = 0 THEN S.cur ELSE e.over IN  \* over: the application named inside the first call
         IF /\ e.s \in Sigs /\ e.top = 1 /\ Len(e.calls) = Told(S, e.s, {e.inner[i] : i \in DOMAIN e.inner})
            /\ \A i \in DOMAIN e.calls : e.calls[i] = IF i = 1 THEN S.cur ELSE c THEN {[S EXCEPT !.cur = c]} ELSE {}
    [] e.op = "wait" -> IF e.woke /\ e.calls # <<>> /\ \A i \in DOMAIN e.calls : e.calls[i] = S.cur THEN {S} ELSE {}  \* a blocking call ends, so that the application can look
    [] e.op = "end" -> IF e.code = 7 THEN {S} ELSE {}                    \* the process came to its own end
    [] OTHER -> {}
=============================================================================
