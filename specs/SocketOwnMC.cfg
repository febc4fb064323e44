INIT Init
NEXT Next
CONSTANT NT = 4
INVARIANT Once
CHECK_DEADLOCK FALSE
