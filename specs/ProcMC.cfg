INIT Init
NEXT Next
CONSTANTS NP = 2
 NC = 2
 N = 4
INVARIANTS One Held Ended Emit
CHECK_DEADLOCK FALSE
