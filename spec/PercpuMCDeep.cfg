SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Cpus = {0, 1}
  Nodes = {1, 2}
  Rounds = 4
  Variant = "None"
INVARIANT Refines
CHECK_DEADLOCK FALSE
