--------------------------- MODULE RankSelectTrace ---------------------------
EXTENDS RankSelect, TraceCheck
InitOf(s) == {InitRS}
=============================================================================
