INIT Init
NEXT Next
CONSTANTS NW = 3
 NR = 3
 BUF = 1
INVARIANTS Good EndIsTruth CutNeverEnds
CHECK_DEADLOCK FALSE
