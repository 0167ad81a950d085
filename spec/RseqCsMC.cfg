SPECIFICATION Spec
CONSTANT Fault = "None"
INVARIANT Allowed
CHECK_DEADLOCK FALSE
