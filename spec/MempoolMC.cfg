SPECIFICATION Spec
CONSTANTS
  MaxHandles = 3
  Toks = {0, 2}
  WithFork = FALSE
  NPools = 1
  NCfg = 4
INVARIANT Inv
PROPERTIES Isolation NeverHandedOut
CHECK_DEADLOCK FALSE
