INIT Init
NEXT Next
CONSTANT N = 8
INVARIANTS OneOwner Held Stream
CHECK_DEADLOCK FALSE
