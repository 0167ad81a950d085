SPECIFICATION Spec
CONSTANTS
  Profile = "mix"
  Len_ = 24
  NPools = 2
CHECK_DEADLOCK FALSE
