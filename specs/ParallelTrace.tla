---------------------------- MODULE ParallelTrace ----------------------------
EXTENDS Parallel, TraceCheck
InitOf(s) == {InitP(s.cfg.n, s.cfg.tn)}
=============================================================================
