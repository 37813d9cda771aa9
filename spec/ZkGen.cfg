SPECIFICATION Spec
CONSTRAINT Written
POSTCONDITION Done
CHECK_DEADLOCK FALSE
