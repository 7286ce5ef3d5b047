SPECIFICATION Spec
INVARIANTS Placed Awake GroupAwake Living Exclusive Kept Free
CHECK_DEADLOCK FALSE
CONSTANTS N = 4
Ops = 2
Spawns = 2
