INIT Init
NEXT Next
CONSTANTS NPush = 5
 Gaps = {0, 1, 2, 3, 4, 5, 6, 16, 17, 18, 64, 65, 66, 201, 256, 257}
 P = 7
INVARIANTS Decodes Sentinel Merges
CHECK_DEADLOCK FALSE
