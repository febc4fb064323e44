INIT Init
NEXT Next
CONSTANTS NT = 3
 NO = 2
 SP = 1
INVARIANTS Balance NoLoss Mutual Emit
CHECK_DEADLOCK FALSE
