SPECIFICATION Spec
CONSTANTS
  MaxHandles = 2
  Toks = {0, 2}
  WithFork = TRUE
  NPools = 1
  NCfg = 4
INVARIANT Inv
PROPERTIES Isolation ForkIsolation
CHECK_DEADLOCK FALSE
