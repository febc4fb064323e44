INIT Init
NEXT Next
CONSTANTS NW = 2
 NR = 2
 BUF = 2
INVARIANTS Good EndIsTruth CutNeverEnds Emit
CHECK_DEADLOCK FALSE
