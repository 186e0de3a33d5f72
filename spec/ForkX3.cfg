SPECIFICATION Spec
CONSTANT Reset = FALSE
INVARIANT Free
CHECK_DEADLOCK FALSE
