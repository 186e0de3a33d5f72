SPECIFICATION Spec
CONSTANT Reset = FALSE
INVARIANT Truth
CHECK_DEADLOCK FALSE
