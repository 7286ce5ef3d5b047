SPECIFICATION Spec
INVARIANTS Placed Awake GroupAwake Living Exclusive Kept Free
CHECK_DEADLOCK FALSE
CONSTANTS N = 3
Ops = 3
Spawns = 2
