SPECIFICATION Spec
CONSTANTS
 Variant = "None"
 Deep = FALSE
INVARIANT Sound
CHECK_DEADLOCK FALSE
