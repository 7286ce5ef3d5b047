SPECIFICATION Spec
INVARIANTS Order Taken Rest
CHECK_DEADLOCK FALSE
CONSTANTS Max = 2
Pushers = {p1, p2}
Poppers = {c1, c2, c3}
Closers = {k1, k2}
PerPusher = 2
PerPopper = 2
CloseAll = TRUE
DrainAll = TRUE
Recheck = TRUE
Spurious = TRUE
PushAlways = TRUE
