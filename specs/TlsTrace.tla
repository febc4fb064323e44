------------------------------ MODULE TlsTrace ------------------------------
EXTENDS Tls, TraceCheck
InitOf(s) == {InitT(s.cfg.nt, s.cfg.ns)}
=============================================================================
