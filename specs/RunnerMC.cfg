INIT Init
NEXT Next
CONSTANTS Kinds <- K5
 Len1 = 2
 Len2 = 2
INVARIANTS Right Bounded VerdictMeans Emit
CHECK_DEADLOCK FALSE
