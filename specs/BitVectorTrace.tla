--------------------------- MODULE BitVectorTrace ---------------------------
EXTENDS BitVector, TraceCheck
InitOf(s) == {InitState}
=============================================================================
