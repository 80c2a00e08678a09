SPECIFICATION Spec
CONSTANTS N = 5 K = 4
INVARIANTS Built Places
CHECK_DEADLOCK FALSE
