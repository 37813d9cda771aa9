SPECIFICATION Spec
INVARIANT Own
INVARIANT NoReplay
INVARIANT After
CONSTRAINT Collect
POSTCONDITION Written
CHECK_DEADLOCK FALSE
