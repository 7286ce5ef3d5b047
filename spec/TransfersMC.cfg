SPECIFICATION Spec
VIEW View
CONSTANTS MaxH = 3
 Steps = 8
INVARIANTS Inv Consistent
CHECK_DEADLOCK FALSE
