INIT Init
NEXT Next
CONSTANTS N = 5 W = 3
INVARIANTS GetOk RankOk LtOk
CHECK_DEADLOCK FALSE
