SPECIFICATION Spec
VIEW View
CONSTANTS MaxH = 4
 Steps = 12
INVARIANTS Inv Consistent
CHECK_DEADLOCK FALSE
