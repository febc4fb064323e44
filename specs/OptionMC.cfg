INIT Init
NEXT Next
CONSTANTS N = 4
INVARIANTS AllOk FlagNeutral Emit
CHECK_DEADLOCK FALSE
