INIT Init
NEXT Next
CONSTANTS Len0 = 5
INVARIANTS Counts Keywords Complete Total Bound Emit
CHECK_DEADLOCK FALSE
