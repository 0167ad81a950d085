SPECIFICATION Spec
CONSTANTS
 Variant = "WmbReads"
 Deep = FALSE
 Arches = {"riscv64"}
INVARIANT Sound
CHECK_DEADLOCK FALSE
