SPECIFICATION Spec
CONSTANTS
 Variant = "None"
 Threads = {1, 2, 3}
 Cap = 2
 Max = 2
 Rounds = 4
INVARIANT Conc
CHECK_DEADLOCK FALSE
