INIT Init
NEXT Next
CONSTANTS Ns = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 47, 48, 55, 56, 57, 62, 63}
INVARIANTS Shift Rotate AddSub MinMax Logic Shuffle Piece
CHECK_DEADLOCK FALSE
