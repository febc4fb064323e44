------------------------------- MODULE DiagMC -------------------------------
(* Every sequence of configuration changes: a message reaches exactly the     *)
(* configured destinations, or none; and threads that put messages, each      *)
(* written by one call on the stream, leave whole lines, each once.           *)
EXTENDS Diag, TLC
CONSTANTS Depth, NT
VARIABLES S, ops, pc, out, part, mode
vars == <<S, ops, pc, out, part, mode>>
Init == mode \in {"cfg", "mt"} /\ S = InitLog /\ ops = <<>> /\ pc = [t \in 1 .. NT |-> 0] /\ out = <<>> /\ part = <<>>
Cfg(e, code) == mode = "cfg" /\ Len(ops) < 2 * Depth /\ S' \in Step(S, e) /\ ops' = ops \o code /\ UNCHANGED <<pc, out, part, mode>>
\* thread t: filter, format (local), write the line by one call, flush
MT == mode = "mt" /\ UNCHANGED <<S, ops, part, mode>> /\ \E t \in 1 .. NT : pc[t] < 4 /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ out' = IF pc[t] = 2 THEN out \o <<<<t, 1>>, <<t, 2>>, <<0, 0>>>> ELSE out
Next == \/ \E f \in {1, 2} : Cfg([op |-> "open", f |-> f, ok |-> TRUE], <<0, f>>)
        \/ Cfg([op |-> "open", f |-> 9, ok |-> FALSE], <<0, 9>>)
        \/ \E f \in {0, 3, 4, 5} : Cfg([op |-> "set", f |-> f], <<1, f>>)
        \/ \E b \in BOOLEAN : Cfg([op |-> "usesys", b |-> b], <<2, IF b THEN 1 ELSE 0>>)
        \/ \E p \in {0, 1, 3} : Cfg([op |-> "pri", p |-> p], <<3, p>>)
        \/ Cfg([op |-> "ms", b |-> TRUE], <<4, 1>>)
        \/ MT
Typed == S.dest \in 0 .. 5 /\ S.pri \in 0 .. 3
\* what Wrote demands, counted: at most one file gets the message, stderr besides it only for one that fails
Nothing == [i \in 1 .. 4 |-> <<>>]
Msg(p, d, sys) == [p |-> p, n |-> 14000, s |-> 5, m |-> 7, text |-> <<65>>, d |-> d, sys |-> sys]
Filtered == \A p \in 0 .. 3 : Wrote(S, Msg(p, Nothing, <<>>)) <=> (p < S.pri \/ (S.dest = 0 /\ ~S.sys))
Once == \A p \in 0 .. 3 : p >= S.pri => \A i \in 1 .. 4 : Wrote(S, Msg(p, [Nothing EXCEPT ![i] = Line(Msg(p, Nothing, <<>>), S.ms)], IF S.sys THEN <<[p |-> IF p = 0 THEN 7 ELSE IF p = 1 THEN 6 ELSE IF p = 2 THEN 4 ELSE 2, t |-> <<65>>]>> ELSE <<>>)) <=> (S.dest = i \/ (S.dest = 5 /\ i = 4))
Whole == mode = "mt" => (Len(out) % 3 = 0 /\ \A i \in 1 .. Len(out) : i % 3 = 1 => out[i + 1][1] = out[i][1] /\ out[i + 2] = <<0, 0>>)
Each == (mode = "mt" /\ \A t \in 1 .. NT : pc[t] = 4) => \A t \in 1 .. NT : Cardinality({i \in 1 .. Len(out) : out[i] = <<t, 1>>}) = 1
Emit == (mode = "cfg" /\ Len(ops) = 2 * Depth) => PrintT(<<"GEN", ops>>)
=============================================================================
