----------------------------- MODULE SparseTrace -----------------------------
EXTENDS Sparse, TraceCheck
InitOf(s) == {[v \in 1 .. Len(s.cfg.k) |-> [k |-> s.cfg.k[v], e |-> <<>>]]}
=============================================================================
