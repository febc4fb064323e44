INIT Init
NEXT Next
CONSTANTS Len0 = 5
INVARIANTS Own Names
CHECK_DEADLOCK FALSE
