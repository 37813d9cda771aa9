SPECIFICATION Spec
INVARIANTS Extracts Complete Issued Unique
CHECK_DEADLOCK FALSE
