SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Variant = "EarlyPublish"
  MaxFail = 1
  Rounds = 2
INVARIANT Ok
PROPERTY SizeSteps
CHECK_DEADLOCK FALSE
