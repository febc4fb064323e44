INIT Init
NEXT Next
CONSTANTS NP = 2
 NC = 2
 N = 6
INVARIANTS One Held Ended
CHECK_DEADLOCK FALSE
