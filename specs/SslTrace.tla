------------------------------ MODULE SslTrace ------------------------------
EXTENDS Ssl, TraceCheck
InitOf(s) == {None}
=============================================================================
