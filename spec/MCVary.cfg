SPECIFICATION Spec
CONSTANTS N = 3 Top = 2
INVARIANTS Conserved Possible
CHECK_DEADLOCK FALSE
