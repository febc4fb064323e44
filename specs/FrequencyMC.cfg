INIT Init
NEXT Next
CONSTANTS N = 4
INVARIANTS TableOk Total Emit
CHECK_DEADLOCK FALSE
