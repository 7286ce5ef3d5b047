CONSTANTS N = 5
 WL = 2
 GL = 2
 MaxSeen = 3
SPECIFICATION Spec
INVARIANTS Inv FnIsRel
PROPERTY RecencyKept
CONSTRAINT NoAnchor
CHECK_DEADLOCK FALSE
