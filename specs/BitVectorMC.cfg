INIT GInit
NEXT GNext
CONSTANTS MaxOps = 3  MaxBits = 40  W = 8  Lens = {0, 5, 8, 11, 16}  Emitting = TRUE
INVARIANTS Refines Canonical EqAgrees Emit
CHECK_DEADLOCK FALSE
