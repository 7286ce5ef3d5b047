CONSTANTS Lies = 2
 Grow = 1
SPECIFICATION Spec
INVARIANTS Sound HonestKept Counted
PROPERTIES Converges SyncedStays
CHECK_DEADLOCK FALSE
