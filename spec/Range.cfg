SPECIFICATION Spec
INVARIANTS Halves Enough Residues
CHECK_DEADLOCK FALSE
