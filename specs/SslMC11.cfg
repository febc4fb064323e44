INIT Init
NEXT Next
CONSTANTS Depth = 11
VIEW View
INVARIANTS Delivered Arrived Quiet NoMemory Determined
CHECK_DEADLOCK FALSE
