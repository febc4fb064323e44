----------------------------- MODULE RunnerTrace -----------------------------
EXTENDS Runner, TraceCheck
InitOf(s) == {0}
=============================================================================
