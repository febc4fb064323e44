----------------------------- MODULE RandomTrace -----------------------------
EXTENDS Random, TraceCheck
InitOf(s) == {[g \in 1 .. 3 |-> [k |-> "no", st |-> <<>>]]}
=============================================================================
