INIT Init
NEXT Next
CONSTANTS NO = 5
INVARIANTS Once Released
CHECK_DEADLOCK FALSE
