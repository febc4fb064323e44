----------------------------- MODULE ProcTrace ------------------------------
EXTENDS Proc, TraceCheck
InitOf(s) == {InitP(s.cfg.np, s.cfg.nv)}
=============================================================================
