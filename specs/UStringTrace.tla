---------------------------- MODULE UStringTrace ----------------------------
EXTENDS UString, TraceCheck
InitOf(s) == {[a |-> <<>>, b |-> <<>>]}
=============================================================================
