INIT Init
NEXT Next
CONSTANTS N = 3
INVARIANTS Sound8 Prefix8 EdgeOk Sound16 Emit
CHECK_DEADLOCK FALSE
