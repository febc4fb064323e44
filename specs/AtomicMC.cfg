INIT Init
NEXT Next
CONSTANTS NT = 2
 NO = 2
INVARIANTS Counted Distinct OneWinner Emit
CHECK_DEADLOCK FALSE
