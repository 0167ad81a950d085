SPECIFICATION Spec
CONSTANTS
  NCpu = 1
  Cap = 2
  MaxR = 2
  CowInit = FALSE
  Robust = TRUE
  Poi = TRUE
  Poison = 0
  Vals = {1}
  Variant = "none"
INVARIANTS Allowed Contents Poisoned FreeList Lazy
CHECK_DEADLOCK FALSE
