INIT Init
NEXT Next
CONSTANTS N = 6
INVARIANTS AllOk FlagNeutral
CHECK_DEADLOCK FALSE
