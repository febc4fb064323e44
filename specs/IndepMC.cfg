INIT Init
NEXT Next
CONSTANTS
  Steps = 4
  NO = 2
  Fault = "no"
INVARIANTS Free Private Counted Emit
CHECK_DEADLOCK FALSE
