------------------------------ MODULE ItoaTrace ------------------------------
EXTENDS Itoa, TraceCheck
InitOf(s) == {0}
=============================================================================
