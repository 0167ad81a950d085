SPECIFICATION Spec
CONSTANTS
  Len_ = 14
  Mode = "libc"
CHECK_DEADLOCK FALSE
