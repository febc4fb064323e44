INIT GInit
NEXT GNext
CONSTANTS MaxOps = 6  MaxBits = 8  W = 2  Lens = {0, 1, 2, 3, 5}  Emitting = FALSE
INVARIANTS Refines Canonical EqAgrees
VIEW View
CHECK_DEADLOCK FALSE
