SPECIFICATION Spec
CONSTRAINT Reg
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
