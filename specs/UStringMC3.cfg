INIT Init
NEXT Next
CONSTANTS N = 3
INVARIANTS FindOk CmpOk LenOk
CHECK_DEADLOCK FALSE
