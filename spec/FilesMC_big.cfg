SPECIFICATION Spec
CONSTANTS
  Max = 10
  Lengths = {1, 2}
  Mode = "update"
  Flush = TRUE
INVARIANTS AtomicUpdate NothingInvented
CHECK_DEADLOCK FALSE
