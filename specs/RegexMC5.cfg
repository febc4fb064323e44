INIT Init
NEXT Next
CONSTANTS N = 5
 Rs = {1, 2, 3, 4, 5, 6, 7, 8, 9}
INVARIANTS Full Leftmost Inside Same
CHECK_DEADLOCK FALSE
