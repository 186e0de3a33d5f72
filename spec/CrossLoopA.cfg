SPECIFICATION Spec
CONSTANTS
  Callers = {1,2,3}
  Lit = FALSE
  Pending = TRUE
  Recheck = TRUE
  TryLock = TRUE
  Locked = TRUE
INVARIANT OneRunner
PROPERTY Completes
CHECK_DEADLOCK FALSE
