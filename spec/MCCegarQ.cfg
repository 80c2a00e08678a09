SPECIFICATION Spec
CONSTANTS NR = 2 K = 4 H = 3 SLICE = 1 SLICES = 61
INVARIANTS Correct Over Follows NeverLost Moves
PROPERTIES Finer
CHECK_DEADLOCK FALSE
