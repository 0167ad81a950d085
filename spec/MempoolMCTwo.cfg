SPECIFICATION Spec
CONSTANTS
  MaxHandles = 2
  Toks = {0, 2}
  WithFork = FALSE
  NPools = 2
  NCfg = 3
INVARIANT Inv
PROPERTIES Isolation NeverHandedOut
CHECK_DEADLOCK FALSE
