INIT Init
NEXT Next
CONSTANTS N = 8 A = 2 M = 5
INVARIANTS Check
CHECK_DEADLOCK FALSE
