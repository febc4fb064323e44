----------------------------- MODULE ThreadObj ------------------------------
(* P25: thread objects. Each successful start makes one system thread, whose  *)
(* body runs once; the thread is released by exactly one join or detach,      *)
(* taken by whichever operation (join, detach, destruction) gets the handle.  *)
EXTENDS Integers, Sequences, FiniteSets
(* hdl: object -> handle or 0; th: handle -> [st, rel, obj]; call: client -> [f, o, took, made] *)
InitT == [hdl |-> [o \in 0 .. 3 |-> -1], th |-> <<>>, call |-> <<>>, slept |-> 0]
NoCall == [f |-> "none", o |-> -1, claim |-> -1, took |-> -1, made |-> -2]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Call(S, t) == Get(S.call, t, NoCall)
(* a join, detach or destruction in progress takes the handle at some moment *)
Take(S) == {[S EXCEPT !.call[t].claim = S.hdl[S.call[t].o], !.hdl[S.call[t].o] = -1] :
            t \in {t \in DOMAIN S.call : S.call[t].f \in {"join", "detach", "destroy"} /\ S.call[t].claim = -1 /\ S.hdl[S.call[t].o] >= 0}}
Step0(S, e) ==
  CASE e.op = "call" -> IF Call(S, e.t).f # "none" THEN {}
                        ELSE {[S EXCEPT !.call = With(@, e.t, [f |-> e.f, o |-> e.o, claim |-> -1, took |-> -1, made |-> -2])]}
    [] e.op = "create" -> LET c == Call(S, e.t) IN
         IF c.f # "begin" \/ c.made # -2 THEN {}
         ELSE IF e.h < 0 THEN {[S EXCEPT !.call = With(@, e.t, [c EXCEPT !.made = -1])]}
         ELSE {[S EXCEPT !.call = With(@, e.t, [c EXCEPT !.made = e.h]), !.hdl[c.o] = e.h,
                         !.th = With(@, e.h, [st |-> "new", rel |-> "no", obj |-> c.o])]}
    [] e.op = "run" -> \* the body of object o begins in thread h
         IF Get(S.th, e.h, [st |-> "none", rel |-> "no", obj |-> -1]).st = "new" /\ S.th[e.h].obj = e.o THEN {[S EXCEPT !.th[e.h].st = "run"]} ELSE {}
    [] e.op = "fin" -> IF e.h \in DOMAIN S.th /\ S.th[e.h].st = "run" THEN {[S EXCEPT !.th[e.h].st = "fin"]} ELSE {}
    [] e.op \in {"join", "detach"} -> \* system calls: only on the object's own handle, which is thereby used up
         LET c == Call(S, e.t) IN
         IF e.h < 0 \/ c.took # -1 \/ c.claim # e.h \/ S.th[e.h].rel # "no" THEN {}
         ELSE IF c.f = "destroy" /\ e.op = "detach" THEN {}
         ELSE IF c.f \in {"join", "detach"} /\ c.f # e.op THEN {}
         ELSE {[S EXCEPT !.th[e.h].rel = e.op, !.call = With(@, e.t, [c EXCEPT !.took = e.h])]}
    [] e.op = "joined" -> IF S.th[e.h].st = "fin" THEN {S} ELSE {}
    [] e.op = "ret" -> LET c == Call(S, e.t) T == [S EXCEPT !.call = With(@, e.t, NoCall)] IN
         IF c.claim # c.took THEN {} ELSE      \* a handle taken is a thread released
         CASE c.f = "begin" -> IF e.r = (c.made >= 0) THEN {T} ELSE {}
           [] c.f = "join" -> \* whoever took the thread has waited for it; otherwise somebody else has taken it
                IF ~e.r THEN {} ELSE IF c.took >= 0 THEN (IF S.th[c.took].st = "fin" THEN {T} ELSE {}) ELSE IF S.hdl[c.o] = -1 THEN {T} ELSE {}
           [] c.f = "detach" -> IF e.r # (c.took >= 0) THEN {} ELSE IF c.took >= 0 \/ S.hdl[c.o] = -1 THEN {T} ELSE {}
           [] c.f = "destroy" -> IF S.hdl[c.o] # -1 \/ (c.took >= 0 /\ S.th[c.took].st # "fin") THEN {} ELSE {T}
           [] OTHER -> {}
    [] e.op = "over" -> IF \A h \in DOMAIN S.th : S.th[h].st = "fin" /\ S.th[h].rel # "no" THEN {S} ELSE {}
    [] e.op = "sleep" -> \* the requested time passes in full whatever interrupts it
         IF e.slept >= e.asked /\ e.slept < e.asked + 50 THEN {S} ELSE {}
    [] e.op = "stack" -> \* a stack of at least the requested size (0: whatever is usual); a size the system refuses starts nothing
         IF e.asked # 0 /\ e.asked < 16384 THEN IF ~e.ok /\ e.runs = 0 THEN {S} ELSE {}
         ELSE IF e.ok /\ e.runs = 1 /\ (e.asked = 0 \/ e.size >= e.asked - 8192) THEN {S} ELSE {}
    [] OTHER -> {}
Step(S, e) == UNION {Step0(T, e) : T \in {S} \cup Take(S)}
=============================================================================
