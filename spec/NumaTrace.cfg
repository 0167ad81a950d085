SPECIFICATION Spec
CONSTRAINT RegL
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
