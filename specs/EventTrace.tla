----------------------------- MODULE EventTrace ------------------------------
EXTENDS Event, TraceCheck
InitOf(s) == {InitE(s.cfg.n)}
=============================================================================
