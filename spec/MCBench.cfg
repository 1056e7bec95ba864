SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Optimum NoneBetter Elementary Surfaces
