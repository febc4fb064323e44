INIT Init
NEXT Next
CONSTANTS Len0 = 4
 Two = {2, 3, 6, 15}
INVARIANTS Once Lost Emit
CHECK_DEADLOCK FALSE
