------------------------------- MODULE IndepTrace ------------------------------
EXTENDS Indep, TraceCheck
InitOf(s) == {InitI}
=============================================================================
