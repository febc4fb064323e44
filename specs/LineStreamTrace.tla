--------------------------- MODULE LineStreamTrace ---------------------------
EXTENDS LineStream, TraceCheck
InitOf(s) == {InitLS(s.cfg.text, s.cfg.max)}
=============================================================================
