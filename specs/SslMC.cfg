INIT Init
NEXT Next
CONSTANTS Depth = 7
VIEW View
INVARIANTS Delivered Arrived Quiet NoMemory Determined Emit
CHECK_DEADLOCK FALSE
