INIT Init
NEXT Next
CONSTANTS MaxOps = 4 N = 3 Cap = 3
INVARIANTS Delivered Stored Emit
CHECK_DEADLOCK FALSE
