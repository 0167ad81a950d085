SPECIFICATION Spec
CONSTANTS
 Variant = "AcqReads"
 Deep = FALSE
 Arches = {"riscv64"}
INVARIANT Sound
CHECK_DEADLOCK FALSE
