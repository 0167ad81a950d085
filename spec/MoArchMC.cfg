SPECIFICATION Spec
CONSTANTS
 Variant = "None"
 Deep = FALSE
 Arches = {"riscv64"}
INVARIANT Sound
CHECK_DEADLOCK FALSE
