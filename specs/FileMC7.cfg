INIT Init
NEXT Next
CONSTANTS N = 7
INVARIANTS WriteExact ReadExact Sane
PROPERTIES AppendOnly
CHECK_DEADLOCK FALSE
