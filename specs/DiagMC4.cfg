INIT Init
NEXT Next
CONSTANTS Depth = 4
 NT = 5
INVARIANTS Typed Filtered Once Whole Each
CHECK_DEADLOCK FALSE
