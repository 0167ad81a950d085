SPECIFICATION Spec
CONSTANTS
  Cpus = {1, 2}
  Toks = {1, 2}
  Poison = 9
  Robust = FALSE
  SplitCow = FALSE
  None = None
INVARIANT ContentInv
CHECK_DEADLOCK FALSE
