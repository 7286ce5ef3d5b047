SPECIFICATION Spec
CONSTANTS Reset = TRUE Keep = TRUE Fork = TRUE MaxChanges = 2 MaxFails = 2
CONSTANT Starts <- Begins
INVARIANTS Kept Settled
PROPERTY Settles
CHECK_DEADLOCK FALSE
