---------------------------- MODULE TopScoreTrace ----------------------------
EXTENDS TopScore, TraceCheck
InitOf(s) == {[cap |-> s.cfg.cap, t |-> <<>>]}
=============================================================================
