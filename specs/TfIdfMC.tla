------------------------------ MODULE TfIdfMC -------------------------------
(* Every short history of words and document ends; counts are recounted from  *)
(* the whole history.                                                         *)
EXTENDS TfIdf, TLC
CONSTANTS Len0
VARIABLES S, h
Ws == <<<<97>>, <<65>>, <<98, 67>>, <<98, 99>>, <<100>>>>
Start == [InitT EXCEPT !.t.w = <<<<98, 99>>, <<97>>>>, !.t.c = <<0, 0>>]
Init == S = Start /\ h = <<>>
Do(o) == /\ h' = Append(h, o)
         /\ S' = IF o = 0 THEN [d |-> DEnd(S.d), t |-> TEnd(S.t)] ELSE [d |-> DApp(S.d, Ws[o]), t |-> TApp(S.t, Ws[o])]
Next == Len(h) < Len0 /\ \E o \in 0 .. 5 : Do(o)
\* document of position i of the history
Doc(i) == Cardinality({j \in 1 .. i : h[j] = 0 /\ j < i})
Docs(w) == {Doc(i) : i \in {i \in DOMAIN h : h[i] # 0 /\ Low(Ws[h[i]]) = w}}
Counts == \A k \in DOMAIN S.d.w : S.d.c[k] = Cardinality(Docs(S.d.w[k]))
Keywords == \A k \in DOMAIN S.t.w : S.t.c[k] = Cardinality(Docs(S.t.w[k]))
Complete == {S.d.w[k] : k \in DOMAIN S.d.w} = {Low(Ws[h[i]]) : i \in {i \in DOMAIN h : h[i] # 0}}
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Total == \A k \in DOMAIN S.t.w : Sum([j \in 1 .. Len(S.t.tf) |-> S.t.tf[j][k]], Len(S.t.tf)) + (IF S.t.cur = <<>> THEN 0 ELSE S.t.cur[k]) = Cardinality({i \in DOMAIN h : h[i] # 0 /\ Low(Ws[h[i]]) = S.t.w[k]})
Bound == \A k \in DOMAIN S.t.w : S.t.c[k] <= Len(S.t.tf) + 1
Emit == (Len(h) = Len0) => PrintT(<<"GEN", h>>)
=============================================================================
