INIT Init
NEXT Next
CONSTANTS N = 3000
 NP = 7
INVARIANTS Known Moves OneSequence Permutes Injective
CHECK_DEADLOCK FALSE
