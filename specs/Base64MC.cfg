INIT Init
NEXT Next
CONSTANTS MaxLen = 5 Bs = {0, 97, 191, 255} Maxes = {0, 4, 8}
INVARIANTS Refines RoundTrip Gen
CHECK_DEADLOCK FALSE
