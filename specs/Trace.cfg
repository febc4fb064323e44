INIT TInit
NEXT TNext
CONSTANTS
  StepOp <- Step
  InitOp <- InitOf
INVARIANT Accepted
CHECK_DEADLOCK FALSE
