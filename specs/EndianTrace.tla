----------------------------- MODULE EndianTrace -----------------------------
EXTENDS Endian, TraceCheck
InitOf(s) == {0}
=============================================================================
