SPECIFICATION Spec
CONSTRAINT Kept
POSTCONDITION Done
CHECK_DEADLOCK FALSE
