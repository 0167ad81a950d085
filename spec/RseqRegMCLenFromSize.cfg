SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Variant = "LenFromSize"
  MaxFail = 1
  Rounds = 2
INVARIANT Ok
PROPERTY SizeSteps
CHECK_DEADLOCK FALSE
