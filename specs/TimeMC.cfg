INIT Init
NEXT Next
CONSTANTS First = 1970
 Last = 2109
INVARIANTS Number Week Epoch RoundTrip NoSuchDay Emit
CHECK_DEADLOCK FALSE
