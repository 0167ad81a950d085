SPECIFICATION Spec
CONSTANT Fault = "NoAbort"
INVARIANT Allowed
CHECK_DEADLOCK FALSE
