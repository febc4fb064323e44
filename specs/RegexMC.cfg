INIT Init
NEXT Next
CONSTANTS N = 3
 Rs = {1, 2, 4, 6, 9}
INVARIANTS Full Leftmost Inside Same Emit
CHECK_DEADLOCK FALSE
