SPECIFICATION Spec
INVARIANTS Sound Exact NeverZero Bound Hiding
CHECK_DEADLOCK FALSE
