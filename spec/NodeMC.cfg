CONSTANTS UseBlocks = {4, 5, 6, 8, 9, 11}
 UseTxs = {9, 10, 11, 12, 13}
 Ops = {"restart", "crash", "roll"}
 MaxRestarts = 1
SPECIFICATION Spec
VIEW View
INVARIANTS Sound Functional Checked Money Followed
PROPERTIES MoreWork NoTrace Kept Told
CHECK_DEADLOCK FALSE
