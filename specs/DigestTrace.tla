---------------------------- MODULE DigestTrace ----------------------------
EXTENDS Digest, TraceCheck
InitOf(s) == {[alg |-> 0, m |-> <<>>, v |-> <<>>]}
=============================================================================
