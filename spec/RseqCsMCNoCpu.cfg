SPECIFICATION Spec
CONSTANT Fault = "NoCpu"
INVARIANT Allowed
CHECK_DEADLOCK FALSE
