SPECIFICATION Spec
INVARIANT NoAlias
INVARIANT OneEntry
INVARIANT Emit
CHECK_DEADLOCK FALSE
