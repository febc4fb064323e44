INIT Init
NEXT Next
CONSTANTS NPush = 4
 Gaps = {0, 1, 2, 4, 5, 16, 17, 64, 65, 256, 257}
 P = 5
INVARIANTS Decodes Sentinel Merges Emit
CHECK_DEADLOCK FALSE
