SPECIFICATION Spec
CONSTANTS
  Cpus = {1, 2}
  Toks = {1, 2}
  Poison = 9
  Robust = TRUE
  SplitCow = FALSE
  None = None
INVARIANT ContentInv NoFalseAlarm PoisonInv
CHECK_DEADLOCK FALSE
