------------------------------ MODULE FileTrace ------------------------------
EXTENDS File, TraceCheck
InitOf(s) == {InitF({"a", "b"}, 1 .. 3)}
=============================================================================
