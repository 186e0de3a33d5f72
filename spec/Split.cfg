SPECIFICATION Spec
INVARIANT Partition
INVARIANT Complete
INVARIANT Lazy
PROPERTY OnlyForward
CHECK_DEADLOCK FALSE
