SPECIFICATION Spec
CONSTANTS
 Variant = "CtrlOnly"
 Deep = FALSE
 Arches = {"aarch64"}
INVARIANT Sound
CHECK_DEADLOCK FALSE
