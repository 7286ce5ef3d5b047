CONSTANTS Lies = 3
 Grow = 2
SPECIFICATION Spec
INVARIANTS Sound HonestKept Counted
PROPERTIES Converges SyncedStays
CHECK_DEADLOCK FALSE
