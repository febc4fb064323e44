------------------------------ MODULE ZlibTrace ------------------------------
EXTENDS Zlib, TraceCheck
InitOf(s) == {InitZ}
=============================================================================
