------------------------------ MODULE TimeTrace ------------------------------
EXTENDS Time, TraceCheck
InitOf(s) == {0}
=============================================================================
