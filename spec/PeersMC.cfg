CONSTANTS N = 4
 WL = 2
 GL = 2
 MaxSeen = 2
SPECIFICATION Spec
INVARIANTS Inv FnIsRel
PROPERTY RecencyKept
CONSTRAINT NoAnchor
CHECK_DEADLOCK FALSE
