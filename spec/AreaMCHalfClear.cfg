SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2, t3}
  Variant = "HalfClear"
INVARIANT Ok
CHECK_DEADLOCK FALSE
