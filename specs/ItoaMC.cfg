INIT Init
NEXT Next
CONSTANTS N = 3
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
