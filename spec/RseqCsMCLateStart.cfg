SPECIFICATION Spec
CONSTANT Fault = "LateStart"
INVARIANT Allowed
CHECK_DEADLOCK FALSE
