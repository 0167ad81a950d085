SPECIFICATION Spec
CONSTANTS
 Variant = "None"
 Deep = TRUE
INVARIANT Sound
CHECK_DEADLOCK FALSE
