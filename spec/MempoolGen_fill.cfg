SPECIFICATION Spec
CONSTANTS
  Profile = "fill"
  Len_ = 24
  NPools = 1
CHECK_DEADLOCK FALSE
