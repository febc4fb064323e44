INIT Init
NEXT Next
CONSTANTS NT = 2
 NS = 2
 N = 6
INVARIANTS Private Isolated
CHECK_DEADLOCK FALSE
