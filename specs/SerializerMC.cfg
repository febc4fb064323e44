INIT Init
NEXT Next
CONSTANTS MaxVals = 2  N = 2
INVARIANTS RoundTrip Minimal
CHECK_DEADLOCK FALSE
