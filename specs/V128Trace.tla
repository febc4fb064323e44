----------------------------- MODULE V128Trace ------------------------------
EXTENDS V128, TraceCheck
InitOf(s) == {[dummy |-> 0]}
=============================================================================
