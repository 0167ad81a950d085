SPECIFICATION Spec
CONSTANTS
  NCpu = 2
  Cap = 2
  MaxR = 1
  CowInit = TRUE
  Robust = TRUE
  Poi = TRUE
  Poison = 5
  Vals = {0, 1}
  Variant = "AlwaysPoison"
INVARIANTS Allowed Contents Poisoned FreeList Lazy
CHECK_DEADLOCK FALSE
