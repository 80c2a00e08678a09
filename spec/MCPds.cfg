SPECIFICATION Spec
CONSTANTS
  NR = 3
  WS = {1}
  H = 6
  K = 14
  SLICE = 0
  SLICES = 1
INVARIANTS PostSound PreSound PreClosed MinBound MaxBound NoRunNoOpt PostComplete PreComplete Attained
CHECK_DEADLOCK FALSE
