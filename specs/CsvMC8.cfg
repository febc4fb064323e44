INIT Init
NEXT Next
CONSTANTS MaxLen = 8 Emitting = FALSE
INVARIANTS Agree
CHECK_DEADLOCK FALSE
