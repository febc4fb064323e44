--------------------------- MODULE FrequencyTrace ---------------------------
EXTENDS Frequency, TraceCheck
InitOf(s) == {InitQ}
=============================================================================
