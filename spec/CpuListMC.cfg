SPECIFICATION Spec
CONSTANTS
  Ids = {0, 1, 2, 3, 8, 9, 10, 11, 100}
  MaxChunk = 3
  MaxIntr = 1
  Variant = "None"
INVARIANTS Ok OkRead OkSecond
CHECK_DEADLOCK FALSE
