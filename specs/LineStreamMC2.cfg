INIT Init
NEXT Next
CONSTANTS MaxLen = 8 Maxes = {2, 3, 4} Emitting = FALSE
INVARIANTS NoStuck Complete
CHECK_DEADLOCK FALSE
