INIT Init
NEXT Next
CONSTANTS N = 120
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
