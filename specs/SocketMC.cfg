INIT Init
NEXT Next
CONSTANT N = 5
INVARIANTS OneOwner Held Stream Emit
CHECK_DEADLOCK FALSE
