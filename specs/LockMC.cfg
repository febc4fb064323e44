INIT Init
NEXT Next
CONSTANTS NT = 3
 NO = 1
 SP = 0
INVARIANTS Mutual Progress Emit
CHECK_DEADLOCK FALSE
