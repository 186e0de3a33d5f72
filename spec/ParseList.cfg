SPECIFICATION Spec
INVARIANT Emit
INVARIANT Reference
CHECK_DEADLOCK FALSE
