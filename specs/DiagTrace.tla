------------------------------ MODULE DiagTrace ------------------------------
EXTENDS Diag, TraceCheck
InitOf(s) == {InitLog}
=============================================================================
