SPECIFICATION Spec
CONSTANTS
  NR = 3
  MODES = {"pre", "post", "dual"}
  SLICE = 0
  SLICES = 150
INVARIANTS Correct PreExact
PROPERTIES Stable Answers
CHECK_DEADLOCK FALSE
