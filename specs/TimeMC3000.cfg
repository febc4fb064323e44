INIT Init
NEXT Next
CONSTANTS First = 1970
 Last = 3009
INVARIANTS Number Week Epoch RoundTrip NoSuchDay
CHECK_DEADLOCK FALSE
