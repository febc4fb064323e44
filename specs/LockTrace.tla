------------------------------ MODULE LockTrace ------------------------------
EXTENDS Lock, TraceCheck
InitOf(s) == {InitL(s.cfg.n, s.cfg.spur)}
=============================================================================
