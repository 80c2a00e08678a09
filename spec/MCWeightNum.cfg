SPECIFICATION Spec
CONSTANTS
  NB = 6
  KINDS = {"num"}
INVARIANTS Unit Commutative Associative Absorbing StrictOrder Monotone Extremal MaxOnlyOfMax
CHECK_DEADLOCK FALSE
