------------------------------ MODULE QuitTrace -----------------------------
EXTENDS Quit, TraceCheck
InitOf(s) == {InitQ}
=============================================================================
