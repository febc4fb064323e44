INIT Init
NEXT Next
CONSTANTS N = 12 B = 4 U = 3
INVARIANTS RankOk SelOk
CHECK_DEADLOCK FALSE
