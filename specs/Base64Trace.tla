----------------------------- MODULE Base64Trace -----------------------------
EXTENDS Base64, TraceCheck
InitOf(s) == {InitB64}
=============================================================================
