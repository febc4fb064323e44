INIT Init
NEXT Next
CONSTANTS MaxLen = 6 Emitting = TRUE
INVARIANTS Agree Emit
CHECK_DEADLOCK FALSE
