INIT Init
NEXT Next
CONSTANTS MaxLen = 6 Maxes = {2, 3} Emitting = TRUE
INVARIANTS NoStuck Complete Print0
CHECK_DEADLOCK FALSE
