------------------------------ MODULE OptionMC ------------------------------
(* Every argument list up to N over the tokens below, for a declaration with  *)
(* every kind of option: an accepted line accounts for each argument exactly  *)
(* once, and every mandatory variable is set.                                 *)
EXTENDS Option, TLC
CONSTANT N
VARIABLE toks
T(k) == CASE k = 1 -> <<45, 102>> [] k = 2 -> <<45, 110>> [] k = 3 -> <<45, 109>> [] k = 4 -> <<45, 118>>    \* -f -n -m -v
          [] k = 5 -> <<49>> [] k = 6 -> <<120>> [] k = 7 -> <<45, 50>> [] k = 8 -> <<45, 45>>             \* 1 x -2 --
O(c, k, ty, def) == [n |-> <<c>>, k |-> k, ty |-> ty, def |-> def]
Dcl(pm, np) == [opts |-> <<O(102, "flag", 0, <<0>>), O(110, "one", 321, <<0, 7, 0, 0, 0>>), O(109, "must", 0, <<>>), O(118, "vec", 321, <<>>)>>,
            params |-> [i \in 1 .. np |-> [ty |-> IF i = 1 THEN 0 ELSE 321, def |-> <<>>]], pmode |-> pm, rty |-> 321, delims |-> <<<<45, 45>>>>, help |-> <<>>]
Init == toks = <<>>
Next == Len(toks) < N /\ \E k \in 1 .. 8 : toks' = Append(toks, k)
Args == [i \in 1 .. Len(toks) |-> T(toks[i])]
Decls == {Dcl("exact", 0), Dcl("exact", 1), Dcl("optional", 1), Dcl("optional", 2), Dcl("variable", 0), Dcl("variable", 1)}
Upto == LET X == {i \in 1 .. Len(toks) : TRUE} IN X
\* arguments consumed: flags, name+value, name+list items, positionals; repeated options are consumed again, so the
\* count of option tokens is taken from the consumed prefix
Accounted(D) == LET r == Result(D, Args) IN r.ok =>
   /\ \A i \in 1 .. Len(D.opts) : D.opts[i].k = "must" => r.os[i]
   /\ r.np \in Mandatory(D) .. Len(D.params)
   /\ (r.rest # <<>> => D.pmode = "variable" /\ r.np = Len(D.params))
   /\ Len(r.tail) = Len(Args) - r.next
   /\ (r.tail # <<>> => Args[r.next] = <<45, 45>>)
   /\ \A i \in 1 .. Len(D.opts) : ~r.os[i] => r.ov[i] = D.opts[i].def
AllOk == \A D \in Decls : Accounted(D)
\* appending to an accepted line a flag keeps it accepted with the same values (unless a delimiter stopped parsing)
FlagNeutral == \A D \in Decls : LET r == Result(D, Args) q == Result(D, Append(Args, T(1))) IN
   r.ok => q.ok /\ q.pv = r.pv /\ q.rest = r.rest /\ (q.next = Len(Args) + 1 => q.ov = [r.ov EXCEPT ![1] = <<1>>])
Emit == PrintT(<<"GEN", <<Len(toks)>> \o toks>>)
=============================================================================
