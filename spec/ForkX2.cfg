SPECIFICATION Spec
CONSTANT Reset = FALSE
INVARIANT Exclusion
CHECK_DEADLOCK FALSE
