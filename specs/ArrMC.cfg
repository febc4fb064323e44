INIT Init
NEXT Next
CONSTANTS Sizes = {0, 1, 3}
 Depth = 3
INVARIANTS Refines Emit
CHECK_DEADLOCK FALSE
