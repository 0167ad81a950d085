SPECIFICATION Spec
CONSTANTS
 Variant = "Reorder"
 Deep = FALSE
INVARIANT Sound
CHECK_DEADLOCK FALSE
