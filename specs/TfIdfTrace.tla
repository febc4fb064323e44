---------------------------- MODULE TfIdfTrace ------------------------------
EXTENDS TfIdf, TraceCheck
InitOf(s) == {InitT}
=============================================================================
