-------------------------------- MODULE Proc --------------------------------
(* P38: child processes and the environment. S.h: the child each process      *)
(* object holds (0: none), S.c: the children in the order they were started,  *)
(* S.env: the variables (0: not there, otherwise the value's number), shut:   *)
(* the standard descriptor the caller has closed (3: none).                   *)
EXTENDS Integers, Sequences, FiniteSets
InitP(np, nv) == [h |-> [p \in 1 .. np |-> 0], c |-> <<>>, env |-> [v \in 1 .. nv |-> <<>>]]
Ends(x) == x.st = "ended"
NonEmpty(args) == SelectSeq(args, LAMBDA a : a # <<>>)
Given(e) == IF e.via = "list" THEN NonEmpty(e.args) ELSE e.args
\* a program can be started when there is one and the system provides what is needed
CanRun(e) == e.kind = "good" /\ ~e.hard
Std(e) == [i \in 1 .. 3 |-> IF e.null THEN "null" ELSE IF e.shut = i - 1 THEN "closed" ELSE "same"]
\* what the program saw when it came to life
Saw(S, e) == /\ e.argv = <<e.exe>> \o Given(e)
             /\ e.fds = <<>>
             /\ e.std = Std(e)
             /\ e.envs = S.env
Step(S, e) ==
  CASE e.op = "run" ->
         IF e.ok # CanRun(e) \/ e.leak # 0 THEN {}
         ELSE IF ~e.ok THEN {[S EXCEPT !.h[e.p] = 0]}
         ELSE IF ~Saw(S, e) THEN {}
         ELSE {[S EXCEPT !.h[e.p] = Len(S.c) + 1, !.c = Append(S.c, [st |-> "running", code |-> 0])]}
    [] e.op = "ends" -> \* the environment: child k ends by itself (code 0 .. 255) or by a signal (-1)
         IF S.c[e.k].st # "running" THEN {} ELSE {[S EXCEPT !.c[e.k] = [st |-> "ended", code |-> e.code]]}
    [] e.op = "alive" ->
         IF S.h[e.p] = 0 THEN IF ~e.r /\ e.code = 0 THEN {S} ELSE {}
         ELSE LET x == S.c[S.h[e.p]] IN
          (CASE x.st = "running" -> IF e.r /\ e.code = 0 THEN {S} ELSE {}
             [] x.st = "ended" -> IF ~e.r /\ e.code = x.code THEN {[S EXCEPT !.c[S.h[e.p]].st = "gone"]} ELSE {}
             [] x.st = "gone" -> IF ~e.r THEN {S} ELSE {})
    [] e.op = "alive0" -> \* without asking for the code
         IF S.h[e.p] = 0 THEN IF ~e.r THEN {S} ELSE {}
         ELSE LET x == S.c[S.h[e.p]] IN IF e.r # (x.st = "running") THEN {} ELSE {IF x.st = "ended" THEN [S EXCEPT !.c[S.h[e.p]].st = "gone"] ELSE S}
    [] e.op = "move" -> \* q takes over what p holds
         IF S.h[e.q] # 0 /\ e.p # e.q THEN {} ELSE IF e.p = e.q THEN {S} ELSE {[S EXCEPT !.h[e.q] = S.h[e.p], !.h[e.p] = 0]}
    [] e.op = "valid" -> IF e.r = (S.h[e.p] # 0) THEN {S} ELSE {}
    [] e.op = "left" -> IF e.n = 0 /\ e.twice = FALSE THEN {S} ELSE {}   \* no child nobody knows of; nothing of the caller's was done again by one
    [] e.op = "setenv" -> {[S EXCEPT !.env[e.v] = <<e.x>>]}
    [] e.op = "unsetenv" -> {[S EXCEPT !.env[e.v] = <<>>]}
    [] e.op = "query" -> IF e.r = (S.env[e.v] # <<>>) /\ e.x = (IF e.r THEN S.env[e.v][1] ELSE e.before) THEN {S} ELSE {}
    [] e.op = "get" -> IF e.thrown = (S.env[e.v] = <<>>) /\ (~e.thrown => e.x = S.env[e.v][1]) THEN {S} ELSE {}
    [] e.op = "getdef" -> IF e.x = (IF S.env[e.v] = <<>> THEN e.dflt ELSE S.env[e.v][1]) THEN {S} ELSE {}
    [] OTHER -> {}
\* a child is held by at most one object
Owned(S) == \A p, q \in DOMAIN S.h : S.h[p] = S.h[q] /\ S.h[p] # 0 => p = q
=============================================================================
