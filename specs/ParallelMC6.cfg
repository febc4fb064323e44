INIT Init
NEXT Next
CONSTANTS NMAX = 6
 TMAX = 3
INVARIANTS Accept Cover AllDone
CHECK_DEADLOCK FALSE
