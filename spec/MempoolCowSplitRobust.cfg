SPECIFICATION Spec
CONSTANTS
  Cpus = {1, 2}
  Toks = {1, 2}
  Poison = 9
  Robust = TRUE
  SplitCow = TRUE
  None = None
INVARIANT NoFalseAlarm
CHECK_DEADLOCK FALSE
