SPECIFICATION Spec
CONSTANTS
  Profile = "content"
  Len_ = 24
  NPools = 1
CHECK_DEADLOCK FALSE
