SPECIFICATION Spec
CONSTANTS Reset = TRUE Keep = TRUE Fork = TRUE MaxChanges = 3 MaxFails = 3
CONSTANT Starts <- Begins
INVARIANTS Kept Settled
PROPERTY Settles
CHECK_DEADLOCK FALSE
