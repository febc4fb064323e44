INIT Init
NEXT Next
CONSTANTS N = 300
 NP = 5
INVARIANTS Known Moves OneSequence Permutes Injective Emit
CHECK_DEADLOCK FALSE
