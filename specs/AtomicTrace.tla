----------------------------- MODULE AtomicTrace -----------------------------
EXTENDS Atomic, TraceCheck
InitOf(s) == {InitA(s.cfg.v, s.cfg.n)}
=============================================================================
