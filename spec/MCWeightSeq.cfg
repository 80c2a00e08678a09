SPECIFICATION Spec
CONSTANTS
  NB = 3
  KINDS = {"arr", "vec"}
INVARIANTS Unit Commutative Associative Absorbing StrictOrder Monotone Extremal MaxOnlyOfMax
CHECK_DEADLOCK FALSE
