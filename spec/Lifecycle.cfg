SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT Outcomes
PROPERTY NoSessionUnlessProvable
CONSTRAINT Collect
POSTCONDITION Written
CHECK_DEADLOCK FALSE
