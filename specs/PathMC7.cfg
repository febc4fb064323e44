INIT Init
NEXT Next
CONSTANTS N = 7
INVARIANTS Join LastDot Agrees OwnSuffix NoBack ExeParts
CHECK_DEADLOCK FALSE
