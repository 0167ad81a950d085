SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2, t3}
  Variant = "None"
  MaxFail = 1
  Rounds = 2
INVARIANT Ok
PROPERTY SizeSteps
CHECK_DEADLOCK FALSE
