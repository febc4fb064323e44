------------------------------ MODULE UtfTrace ------------------------------
EXTENDS Utf, TraceCheck
InitOf(s) == {0}
=============================================================================
