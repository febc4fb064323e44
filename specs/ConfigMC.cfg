INIT Init
NEXT Next
CONSTANTS N = 4
INVARIANTS RoundTrip Functional WellPlaced LineWise Emit
CHECK_DEADLOCK FALSE
