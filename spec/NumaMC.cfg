SPECIFICATION Spec
CONSTANTS
  MaxPages = 40
  Batch = 4
  Variant = "None"
INVARIANT Ok
CHECK_DEADLOCK FALSE
