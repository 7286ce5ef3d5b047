CONSTANTS UseBlocks = {4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
 UseTxs = {9, 10, 11, 12, 13}
 Ops = {"restart", "crash", "roll", "wait"}
 MaxRestarts = 1
SPECIFICATION Spec
VIEW View
INVARIANTS Sound Functional Checked Money Followed
PROPERTIES MoreWork NoTrace Kept Told
CHECK_DEADLOCK FALSE
