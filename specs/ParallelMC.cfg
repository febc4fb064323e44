INIT Init
NEXT Next
CONSTANTS NMAX = 4
 TMAX = 3
INVARIANTS Accept Cover AllDone Emit
CHECK_DEADLOCK FALSE
