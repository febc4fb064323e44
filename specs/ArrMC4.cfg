INIT Init
NEXT Next
CONSTANTS Sizes = {0, 1, 2, 3}
 Depth = 4
INVARIANTS Refines
CHECK_DEADLOCK FALSE
