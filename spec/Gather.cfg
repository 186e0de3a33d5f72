SPECIFICATION Spec
INVARIANT NotEarly
INVARIANT InOrder
INVARIANT Exactly
INVARIANT Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
