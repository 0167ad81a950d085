SPECIFICATION Spec
CONSTANTS
  MaxPages = 40
  Batch = 4
  Variant = "WholeBatches"
INVARIANT Ok
CHECK_DEADLOCK FALSE
