INIT Init
NEXT Next
CONSTANTS N = 5 A = 3 M = 3
INVARIANTS Check Emit
CHECK_DEADLOCK FALSE
