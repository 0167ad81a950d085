SPECIFICATION Spec
CONSTANTS
  MaxPages = 40
  Batch = 4
  Variant = "Overlap"
INVARIANT Ok
CHECK_DEADLOCK FALSE
