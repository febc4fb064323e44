--------------------------- MODULE ThreadObjTrace ----------------------------
EXTENDS ThreadObj, TraceCheck
InitOf(s) == {InitT}
=============================================================================
