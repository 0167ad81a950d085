SPECIFICATION Spec
CONSTANT Fault = "PrepAfter"
INVARIANT Allowed
CHECK_DEADLOCK FALSE
