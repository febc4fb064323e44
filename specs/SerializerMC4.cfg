INIT Init
NEXT Next
CONSTANTS MaxVals = 2  N = 4
INVARIANTS RoundTrip Minimal
CHECK_DEADLOCK FALSE
