SPECIFICATION Spec
CONSTRAINT Publish
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
