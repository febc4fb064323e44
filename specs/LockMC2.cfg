INIT Init
NEXT Next
CONSTANTS NT = 3
 NO = 2
 SP = 0
INVARIANTS Mutual Progress
CHECK_DEADLOCK FALSE
