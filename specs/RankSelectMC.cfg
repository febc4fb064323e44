INIT Init
NEXT Next
CONSTANTS N = 9 B = 3 U = 2
INVARIANTS RankOk SelOk Emit
CHECK_DEADLOCK FALSE
