INIT Init
NEXT Next
CONSTANTS N = 7
 MaxScore = 3
 Caps = {0, 1, 2, 3, 5}
INVARIANTS Right Ordered
CHECK_DEADLOCK FALSE
