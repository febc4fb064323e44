INIT Init
NEXT Next
CONSTANTS N = 6
INVARIANTS RoundTrip Functional WellPlaced LineWise
CHECK_DEADLOCK FALSE
