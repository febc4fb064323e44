INIT Init
NEXT Next
CONSTANTS N = 4
INVARIANTS SignedOk UnsignedOk Emit
CHECK_DEADLOCK FALSE
