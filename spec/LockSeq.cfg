SPECIFICATION Spec
INVARIANT WellFormed
INVARIANT Emit
PROPERTY Truthful
CHECK_DEADLOCK FALSE
