SPECIFICATION Spec
CONSTANTS N = 7 K = 4
INVARIANTS Built Places
CHECK_DEADLOCK FALSE
