SPECIFICATION Spec
INVARIANTS Irreflexive Asymmetric Mirrored Transitive Pascal Logistic
CHECK_DEADLOCK FALSE
