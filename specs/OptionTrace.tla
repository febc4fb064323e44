----------------------------- MODULE OptionTrace -----------------------------
EXTENDS Option, TraceCheck
InitOf(s) == {0}
=============================================================================
