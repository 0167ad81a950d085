SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2, t3}
  Variant = "OtherThread"
INVARIANT Ok
CHECK_DEADLOCK FALSE
