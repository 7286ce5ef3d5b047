SPECIFICATION Spec
CONSTANTS
  Max = 5
  Lengths = {1, 2}
  Mode = "pair"
  Flush = TRUE
INVARIANTS PairCrash
CHECK_DEADLOCK FALSE
