INIT Init
NEXT Next
CONSTANTS N = 4
INVARIANTS Sound8 Prefix8 EdgeOk Sound16
CHECK_DEADLOCK FALSE
