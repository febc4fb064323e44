INIT Init
NEXT Next
CONSTANTS NT = 3
 NO = 2
INVARIANTS Counted Distinct OneWinner
CHECK_DEADLOCK FALSE
