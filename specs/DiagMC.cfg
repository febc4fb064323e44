INIT Init
NEXT Next
CONSTANTS Depth = 3
 NT = 3
INVARIANTS Typed Filtered Once Whole Each Emit
CHECK_DEADLOCK FALSE
