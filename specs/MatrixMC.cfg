INIT Init
NEXT Next
CONSTANTS
  MaxN = 6
  MaxH = 5
INVARIANTS Taken Back Even Groups Sane Emit
CHECK_DEADLOCK FALSE
