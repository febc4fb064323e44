INIT Init
NEXT Next
CONSTANTS N = 4
INVARIANTS Correct PrefixBad Count EscInverse Emit
CHECK_DEADLOCK FALSE
