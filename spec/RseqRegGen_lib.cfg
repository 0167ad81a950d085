SPECIFICATION Spec
CONSTANTS
  Len_ = 14
  Mode = "lib"
CHECK_DEADLOCK FALSE
