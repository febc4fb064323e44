--------------------------- MODULE SerializerTrace ---------------------------
EXTENDS Serializer, TraceCheck
InitOf(s) == {InitStateFor(s.cfg.fixed)}
=============================================================================
