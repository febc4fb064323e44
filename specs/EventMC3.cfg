INIT Init
NEXT Next
CONSTANTS NT = 3
 NO = 3
 SP = 1
INVARIANTS Balance NoLoss Mutual
CHECK_DEADLOCK FALSE
