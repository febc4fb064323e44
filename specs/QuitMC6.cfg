INIT Init
NEXT Next
CONSTANTS Len0 = 6
 Two = {2, 3, 6, 15}
INVARIANTS Once Lost
CHECK_DEADLOCK FALSE
