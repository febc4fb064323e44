INIT Init
NEXT Next
CONSTANTS Len0 = 4
INVARIANTS Own Names Emit
CHECK_DEADLOCK FALSE
