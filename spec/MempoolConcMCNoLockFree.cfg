SPECIFICATION Spec
CONSTANTS
 Variant = "NoLockFree"
 Threads = {1, 2}
 Cap = 2
 Max = 2
 Rounds = 4
INVARIANT Conc
CHECK_DEADLOCK FALSE
