SPECIFICATION Spec
CONSTANTS
  Profile = "fork"
  Len_ = 24
  NPools = 2
CHECK_DEADLOCK FALSE
