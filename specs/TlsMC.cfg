INIT Init
NEXT Next
CONSTANTS NT = 2
 NS = 2
 N = 5
INVARIANTS Private Isolated Emit
CHECK_DEADLOCK FALSE
