SPECIFICATION Spec
CONSTANT Reset = TRUE
INVARIANT Truth
INVARIANT IsLockedOk
INVARIANT Exclusion
INVARIANT Free
INVARIANT Emit
CHECK_DEADLOCK FALSE
