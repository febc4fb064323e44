INIT Init
NEXT Next
CONSTANTS N = 5
 MaxScore = 2
 Caps = {0, 1, 2, 3, 4}
INVARIANTS Right Ordered Emit
CHECK_DEADLOCK FALSE
