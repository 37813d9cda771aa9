SPECIFICATION Spec
CONSTRAINT Publish
POSTCONDITION Result
CHECK_DEADLOCK FALSE
