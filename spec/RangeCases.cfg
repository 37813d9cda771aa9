SPECIFICATION Spec
INVARIANT Halves
CONSTRAINT Collect
POSTCONDITION Written
CHECK_DEADLOCK FALSE
