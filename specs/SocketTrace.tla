----------------------------- MODULE SocketTrace -----------------------------
EXTENDS Socket, TraceCheck
InitOf(s) == {InitN(s.cfg.n)}
=============================================================================
