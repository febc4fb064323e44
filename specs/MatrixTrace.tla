------------------------------- MODULE MatrixTrace -----------------------------
EXTENDS Matrix, TraceCheck
InitOf(s) == {InitM}
=============================================================================
