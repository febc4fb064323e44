INIT Init
NEXT Next
INVARIANTS RoundTrip SwapOk BitsOk Emit
CHECK_DEADLOCK FALSE
