INIT Init
NEXT Next
CONSTANTS N = 3
INVARIANTS Chunking Emit
CHECK_DEADLOCK FALSE
