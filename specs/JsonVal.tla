-------------------------------- MODULE JsonVal --------------------------------
(* P43: values of JSON documents. Three variables hold trees; every value is  *)
(* a tree of its own: what happens to one variable never shows in another.    *)
EXTENDS Integers, Sequences, FiniteSets
NV == 3
Null == [t |-> "null"]
InitJ == [v |-> [k \in 1 .. NV |-> Null]]
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
\* members by rising name, each name once; setting a name again replaces the value
RECURSIVE PutM(_, _, _)
PutM(m, k, x) == IF m = <<>> THEN <<[k |-> k, v |-> x]>>
  ELSE IF m[1].k = k THEN <<[k |-> k, v |-> x]>> \o Tail(m)
  ELSE IF Less(k, m[1].k) THEN <<[k |-> k, v |-> x]>> \o m ELSE <<m[1]>> \o PutM(Tail(m), k, x)
Kids(x) == IF x.t = "arr" THEN x.l ELSE IF x.t = "obj" THEN [i \in DOMAIN x.m |-> x.m[i].v] ELSE <<>>
Do(S, e) ==
  CASE e.op = "set" -> [S EXCEPT !.v[e.d] = e.x]                   \* a text, number, truth value or nothing
    [] e.op = "copy" -> [S EXCEPT !.v[e.d] = S.v[e.s]]             \* construct from another, assign; d may be s
    [] e.op = "swap" -> [S EXCEPT !.v[e.d] = S.v[e.s], !.v[e.s] = S.v[e.d]]
    [] e.op = "arr" -> [S EXCEPT !.v[e.d] = [t |-> "arr", l |-> [i \in DOMAIN e.l |-> S.v[e.l[i]]]]]
    [] e.op = "push" -> [S EXCEPT !.v[e.d].l = Append(@, S.v[e.s])]
    [] e.op = "obj" -> [S EXCEPT !.v[e.d] = [t |-> "obj", m |-> <<>>]]
    [] e.op = "put" -> [S EXCEPT !.v[e.d].m = PutM(@, e.k, S.v[e.s])]
    [] e.op = "kid" -> [S EXCEPT !.v[e.d] = Kids(S.v[e.s])[e.i]]   \* a part of s, d may be s itself
    [] OTHER -> S
Can(S, e) ==
  CASE e.op = "push" -> S.v[e.d].t = "arr"
    [] e.op = "put" -> S.v[e.d].t = "obj"
    [] e.op = "kid" -> e.i \in DOMAIN Kids(S.v[e.s])
    [] OTHER -> TRUE
Ops == {"set", "copy", "swap", "arr", "push", "obj", "put", "kid"}
Step(S, e) ==
  CASE e.op = "see" -> IF e.v = S.v THEN {S} ELSE {}               \* all three trees, read through the accessors
    [] e.op = "is" -> IF e.r = <<S.v[e.s].t>> THEN {S} ELSE {}     \* the kinds whose question says yes
    [] e.op = "left" -> IF e.n = 0 THEN {S} ELSE {}                \* memory still held after all are gone
    [] e.op \in Ops -> IF Can(S, e) THEN {Do(S, e)} ELSE {}
    [] OTHER -> {}
=============================================================================
