SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Variant = "None"
  MaxFail = 1
  Rounds = 3
INVARIANT Ok
PROPERTY SizeSteps
CHECK_DEADLOCK FALSE
