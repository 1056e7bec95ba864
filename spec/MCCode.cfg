SPECIFICATION Spec
INVARIANTS RoundTrip Ordered Dense Mirror Arithmetic
CHECK_DEADLOCK FALSE
