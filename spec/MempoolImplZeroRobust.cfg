SPECIFICATION Spec
CONSTANTS
  NCpu = 2
  Cap = 1
  MaxR = 2
  CowInit = FALSE
  Robust = TRUE
  Poi = TRUE
  Poison = 5
  Vals = {1}
  Variant = "none"
INVARIANTS Allowed Contents Poisoned FreeList Lazy
CHECK_DEADLOCK FALSE
