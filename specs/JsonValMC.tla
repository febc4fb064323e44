------------------------------- MODULE JsonValMC -------------------------------
(* Every short history on three variables. Each variable must be what its own *)
(* last change says, evaluated backwards over the history (Val): no change of *)
(* another variable ever shows.                                               *)
EXTENDS JsonVal, TLC
CONSTANTS Len0
VARIABLES S, h
Os == <<[op |-> "set", d |-> 1, x |-> [t |-> "num", n |-> 5]], [op |-> "set", d |-> 2, x |-> [t |-> "str", s |-> <<97>>]], [op |-> "set", d |-> 1, x |-> Null],
  [op |-> "copy", d |-> 2, s |-> 1], [op |-> "copy", d |-> 1, s |-> 1], [op |-> "copy", d |-> 1, s |-> 3], [op |-> "copy", d |-> 3, s |-> 2], [op |-> "swap", d |-> 1, s |-> 2], [op |-> "swap", d |-> 3, s |-> 3],
  [op |-> "arr", d |-> 1, l |-> <<2, 1>>], [op |-> "arr", d |-> 3, l |-> <<>>], [op |-> "push", d |-> 1, s |-> 2], [op |-> "push", d |-> 3, s |-> 3], [op |-> "push", d |-> 1, s |-> 1],
  [op |-> "obj", d |-> 2], [op |-> "put", d |-> 2, s |-> 1, k |-> <<98>>], [op |-> "put", d |-> 2, s |-> 2, k |-> <<97, 0>>], [op |-> "put", d |-> 2, s |-> 3, k |-> <<98>>],
  [op |-> "kid", d |-> 1, s |-> 1, i |-> 1], [op |-> "kid", d |-> 3, s |-> 2, i |-> 1], [op |-> "kid", d |-> 1, s |-> 1, i |-> 2]>>
Init == S = InitJ /\ h = <<>>
Next == Len(h) < Len0 /\ \E o \in 1 .. Len(Os) : Can(S, Os[o]) /\ S' = Do(S, Os[o]) /\ h' = Append(h, o)
RECURSIVE Val(_, _)
Val(i, k) == IF i = 0 THEN Null ELSE LET e == Os[h[i]] IN
  IF e.op = "swap" THEN Val(i - 1, IF k = e.d THEN e.s ELSE IF k = e.s THEN e.d ELSE k)
  ELSE IF e.d # k THEN Val(i - 1, k)
  ELSE CASE e.op = "set" -> e.x [] e.op = "copy" -> Val(i - 1, e.s) [] e.op = "obj" -> [t |-> "obj", m |-> <<>>]
         [] e.op = "arr" -> [t |-> "arr", l |-> [j \in DOMAIN e.l |-> Val(i - 1, e.l[j])]]
         [] e.op = "push" -> [t |-> "arr", l |-> Append(Val(i - 1, k).l, Val(i - 1, e.s))]
         [] e.op = "put" -> [t |-> "obj", m |-> PutM(Val(i - 1, k).m, e.k, Val(i - 1, e.s))]
         [] e.op = "kid" -> Kids(Val(i - 1, e.s))[e.i]
Own == \A k \in 1 .. NV : S.v[k] = Val(Len(h), k)
RECURSIVE Sorted(_)
Sorted(x) == /\ x.t = "obj" => \A i \in 2 .. Len(x.m) : Less(x.m[i - 1].k, x.m[i].k)
             /\ \A i \in DOMAIN Kids(x) : Sorted(Kids(x)[i])
Names == \A k \in 1 .. NV : Sorted(S.v[k])
Emit == (Len(h) = Len0) => PrintT(<<"GEN", h>>)
=============================================================================
