SPECIFICATION Spec
CONSTANTS
  MaxPages = 40
  Batch = 4
  Variant = "DropTail"
INVARIANT Ok
CHECK_DEADLOCK FALSE
