SPECIFICATION Spec
CONSTANTS
  Profile = "set"
  Len_ = 24
  NPools = 4
CHECK_DEADLOCK FALSE
