---------------------------- MODULE RegexTrace ------------------------------
EXTENDS Regex, TraceCheck
InitOf(s) == {[x |-> [t |-> "dot"], n |-> 0, ic |-> FALSE, s |-> <<>>]}
=============================================================================
