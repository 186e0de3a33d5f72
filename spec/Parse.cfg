SPECIFICATION Spec
INVARIANT SplitOnce
INVARIANT Blanks
INVARIANT Parens
INVARIANT Emit
CHECK_DEADLOCK FALSE
