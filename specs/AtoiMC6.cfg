INIT Init
NEXT Next
CONSTANTS N = 6
INVARIANTS SignedOk UnsignedOk
CHECK_DEADLOCK FALSE
