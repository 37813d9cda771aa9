SPECIFICATION Spec
INVARIANT Exact
CONSTRAINT Collect
POSTCONDITION Written
CHECK_DEADLOCK FALSE
