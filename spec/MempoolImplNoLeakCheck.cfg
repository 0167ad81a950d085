SPECIFICATION Spec
CONSTANTS
  NCpu = 2
  Cap = 2
  MaxR = 1
  CowInit = FALSE
  Robust = TRUE
  Poi = TRUE
  Poison = 5
  Vals = {1}
  Variant = "NoLeakCheck"
INVARIANTS Allowed Contents Poisoned FreeList Lazy
CHECK_DEADLOCK FALSE
