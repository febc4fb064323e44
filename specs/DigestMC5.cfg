INIT Init
NEXT Next
CONSTANTS N = 5
INVARIANTS Chunking
CHECK_DEADLOCK FALSE
