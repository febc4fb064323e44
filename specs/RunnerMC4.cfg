INIT Init
NEXT Next
CONSTANTS Kinds <- K5
 Len1 = 4
 Len2 = 3
INVARIANTS Right Bounded VerdictMeans
CHECK_DEADLOCK FALSE
