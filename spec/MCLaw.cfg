SPECIFICATION Spec
INVARIANTS Sum1 PrefersBetter EqualChance Variation
  Large
CHECK_DEADLOCK FALSE
