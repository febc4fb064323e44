INIT Init
NEXT Next
CONSTANTS N = 4
INVARIANTS TrimOk SplitOk CaseOk FindOk Emit
CHECK_DEADLOCK FALSE
