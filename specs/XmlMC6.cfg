INIT Init
NEXT Next
CONSTANTS N = 6
INVARIANTS Correct Count EscInverse
CHECK_DEADLOCK FALSE
