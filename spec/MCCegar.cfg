SPECIFICATION Spec
CONSTANTS NR = 3 K = 5 H = 3 SLICE = 1 SLICES = 211
INVARIANTS Correct Over Follows NeverLost Moves
PROPERTIES Finer
CHECK_DEADLOCK FALSE
