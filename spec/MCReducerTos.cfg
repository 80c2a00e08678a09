SPECIFICATION SpecTos
CONSTANTS NR = 3 H = 4 K = 6 SLICE = 1 SLICES = 7
INVARIANTS KeepsUseful Covers
PROPERTIES Settles
CHECK_DEADLOCK FALSE
