SPECIFICATION SpecRun
CONSTANTS NR = 3 H = 4 K = 9 SLICE = 1 SLICES = 97
INVARIANTS UsedUseful UsefulUsed
CHECK_DEADLOCK FALSE
