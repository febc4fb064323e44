INIT Init
NEXT Next
CONSTANTS NO = 3
INVARIANTS Once Released Emit
CHECK_DEADLOCK FALSE
