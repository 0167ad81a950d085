SPECIFICATION Spec
CONSTANTS
  Profile = "robust"
  Len_ = 24
  NPools = 1
CHECK_DEADLOCK FALSE
