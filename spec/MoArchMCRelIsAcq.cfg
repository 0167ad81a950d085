SPECIFICATION Spec
CONSTANTS
 Variant = "RelIsAcq"
 Deep = FALSE
 Arches = {"loongarch64"}
INVARIANT Sound
CHECK_DEADLOCK FALSE
