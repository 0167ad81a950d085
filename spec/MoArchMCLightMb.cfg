SPECIFICATION Spec
CONSTANTS
 Variant = "LightMb"
 Deep = FALSE
 Arches = {"ppc64"}
INVARIANT Sound
CHECK_DEADLOCK FALSE
