SPECIFICATION WSpec
INVARIANT NotEarly
INVARIANT InOrder
INVARIANT Exactly
INVARIANT Emit
CHECK_DEADLOCK FALSE
