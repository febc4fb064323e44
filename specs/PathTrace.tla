------------------------------ MODULE PathTrace ------------------------------
EXTENDS Path, TraceCheck
InitOf(s) == {{}}
=============================================================================
