SPECIFICATION Spec
CONSTANTS
  NCpu = 2
  Cap = 2
  MaxR = 1
  CowInit = FALSE
  Robust = TRUE
  Poi = TRUE
  Poison = 0
  Vals = {0, 1}
  Variant = "AlwaysZero"
INVARIANTS Allowed Contents Poisoned FreeList Lazy
CHECK_DEADLOCK FALSE
