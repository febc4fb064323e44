INIT Init
NEXT Next
CONSTANTS N = 5
INVARIANTS WriteExact ReadExact Sane Emit
PROPERTIES AppendOnly
CHECK_DEADLOCK FALSE
