SPECIFICATION Spec
INVARIANTS Sound Bound
CHECK_DEADLOCK FALSE
