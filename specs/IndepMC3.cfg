INIT Init
NEXT Next
CONSTANTS
  Steps = 3
  NO = 3
  Fault = "no"
INVARIANTS Free Private Counted
CHECK_DEADLOCK FALSE
