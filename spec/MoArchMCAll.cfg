SPECIFICATION Spec
CONSTANTS
 Variant = "None"
 Deep = FALSE
 Arches = {"aarch64", "arm", "riscv64", "ppc64", "s390x", "mips64el", "loongarch64"}
INVARIANT Sound
CHECK_DEADLOCK FALSE
