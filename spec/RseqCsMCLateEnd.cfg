SPECIFICATION Spec
CONSTANT Fault = "LateEnd"
INVARIANT Allowed
CHECK_DEADLOCK FALSE
