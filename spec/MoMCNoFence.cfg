SPECIFICATION Spec
CONSTANTS
 Variant = "NoFence"
 Deep = FALSE
INVARIANT Sound
CHECK_DEADLOCK FALSE
