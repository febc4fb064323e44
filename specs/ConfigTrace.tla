----------------------------- MODULE ConfigTrace -----------------------------
EXTENDS Config, TraceCheck
InitOf(s) == {Empty}
=============================================================================
