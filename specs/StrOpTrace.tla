---------------------------- MODULE StrOpTrace ----------------------------
EXTENDS StrOp, TraceCheck
InitOf(s) == {0}
=============================================================================
