INIT Init
NEXT Next
CONSTANTS N = 2
INVARIANTS FindOk CmpOk LenOk Emit
CHECK_DEADLOCK FALSE
