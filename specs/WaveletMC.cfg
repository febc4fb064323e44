INIT Init
NEXT Next
CONSTANTS N = 5 W = 2
INVARIANTS GetOk RankOk LtOk Emit
CHECK_DEADLOCK FALSE
