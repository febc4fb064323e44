-------------------------------- MODULE IndepMC --------------------------------
(* Every order of making, using and ending up to NO objects. The objects are  *)
(* memory cells, one per object; a step changes the object's cell and yields  *)
(* it. shared is the defect: one cell that all of them use, as a static       *)
(* member would be; fresh says whether making an object resets it.            *)
EXTENDS Indep, TLC
CONSTANTS Steps, NO, Fault          \* Fault: "no", "static" or "reset"
VARIABLES S, cell, last, h
vars == <<S, cell, last, h>>
Objs == 1 .. NO
Start(o) == o
Move(o, c) == (c * 3 + o) % 101
RECURSIVE After(_, _)
After(o, k) == IF k = 0 THEN Start(o) ELSE Move(o, After(o, k - 1))
Ref == {[kind |-> "cell", script |-> o, obs |-> [k \in 1 .. Steps |-> After(o, k)]] : o \in Objs}
Where(o) == IF Fault = "no" THEN o ELSE 1
Init == S = [InitI EXCEPT !.ref = Ref] /\ cell = [o \in Objs |-> 0] /\ last = [o \in Objs |-> <<>>] /\ h = <<>>
Count(o) == Cardinality({i \in DOMAIN h : h[i] = o})
Make(o) == /\ Count(o) = 0 /\ (o = 1 \/ Count(o - 1) > 0)          \* made in the order of their numbers
           /\ S' \in New(S, [op |-> "new", o |-> o, kind |-> "cell", script |-> o])
           /\ cell' = [cell EXCEPT ![Where(o)] = IF Fault = "static" THEN @ ELSE Start(o)]
           /\ UNCHANGED last
Use(o) == /\ Count(o) \in 1 .. Steps
          /\ cell' = [cell EXCEPT ![Where(o)] = Move(o, @)]
          /\ last' = [last EXCEPT ![o] = Append(@, cell'[Where(o)])]
          /\ S' \in Step(S, [op |-> "step", o |-> o, obs |-> cell'[Where(o)]])
Drop(o) == Count(o) = Steps + 1 /\ S' \in Step(S, [op |-> "del", o |-> o]) /\ UNCHANGED <<cell, last>>
Next == \E o \in Objs : (Make(o) \/ Use(o) \/ Drop(o)) /\ h' = Append(h, o)
\* an object is stuck exactly when it was seen to do something else than alone
Free == \A o \in Objs : Count(o) \in 1 .. Steps => ENABLED Use(o)
Private == \A o \in Objs : \A k \in DOMAIN last[o] : last[o][k] = After(o, k)
Counted == \A o \in Objs : Has(S, o) => Ob(S, o).k = Len(last[o]) /\ Count(o) = Len(last[o]) + 1
Emit == (Len(h) = NO * (Steps + 2)) => PrintT(<<"GEN", h>>)
=============================================================================
