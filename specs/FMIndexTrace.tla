---------------------------- MODULE FMIndexTrace ----------------------------
EXTENDS FMIndex, TraceCheck
InitOf(s) == {InitF}
=============================================================================
