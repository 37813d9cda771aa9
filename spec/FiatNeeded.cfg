SPECIFICATION Spec
CONSTRAINT Count
POSTCONDITION Needed
CHECK_DEADLOCK FALSE
