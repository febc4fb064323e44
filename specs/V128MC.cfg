INIT Init
NEXT Next
CONSTANTS Ns = {0, 1, 8, 31, 63}
INVARIANTS Shift Rotate AddSub MinMax Logic Shuffle Piece Emit
CHECK_DEADLOCK FALSE
