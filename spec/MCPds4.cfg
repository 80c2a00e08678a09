SPECIFICATION Spec
CONSTANTS
  NR = 4
  WS = {1}
  H = 6
  K = 14
  SLICE = 0
  SLICES = 6
INVARIANTS PostSound PreSound PreClosed MinBound MaxBound NoRunNoOpt PostComplete PreComplete Attained
CHECK_DEADLOCK FALSE
