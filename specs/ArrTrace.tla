------------------------------ MODULE ArrTrace ------------------------------
EXTENDS Arr, TraceCheck
InitOf(s) == {[v \in 1 .. 3 |-> <<>>]}
=============================================================================
