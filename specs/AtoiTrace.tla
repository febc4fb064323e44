------------------------------ MODULE AtoiTrace ------------------------------
EXTENDS Atoi, TraceCheck
InitOf(s) == {0}
=============================================================================
