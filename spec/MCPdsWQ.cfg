SPECIFICATION Spec
CONSTANTS
  NR = 3
  WS <- Mixed
  H = 9
  K = 14
  SLICE = 0
  SLICES = 100
INVARIANTS PostSound PreSound PreClosed MinBound MaxBound NoRunNoOpt PostComplete PreComplete Attained
CHECK_DEADLOCK FALSE
