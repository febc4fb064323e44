INIT Init
NEXT Next
CONSTANTS Len0 = 7
INVARIANTS Counts Keywords Complete Total Bound
CHECK_DEADLOCK FALSE
