INIT Init
NEXT Next
CONSTANTS N = 5
INVARIANTS Join LastDot Agrees OwnSuffix NoBack ExeParts Emit
CHECK_DEADLOCK FALSE
