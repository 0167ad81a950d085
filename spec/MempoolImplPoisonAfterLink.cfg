SPECIFICATION Spec
CONSTANTS
  NCpu = 2
  Cap = 2
  MaxR = 1
  CowInit = TRUE
  Robust = FALSE
  Poi = TRUE
  Poison = 5
  Vals = {1}
  Variant = "PoisonAfterLink"
INVARIANTS Allowed Contents Poisoned FreeList Lazy
CHECK_DEADLOCK FALSE
