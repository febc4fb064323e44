------------------------------ MODULE JsonValTrace -----------------------------
EXTENDS JsonVal, TraceCheck
InitOf(s) == {InitJ}
=============================================================================
