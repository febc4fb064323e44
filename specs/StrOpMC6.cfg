INIT Init
NEXT Next
CONSTANTS N = 6
INVARIANTS TrimOk SplitOk CaseOk FindOk
CHECK_DEADLOCK FALSE
