SPECIFICATION Spec
CONSTANTS
  Callers = {1,2}
  Lit = TRUE
  Pending = TRUE
  Recheck = TRUE
  TryLock = FALSE
  Locked = TRUE
INVARIANT OneRunner
PROPERTY Completes
CHECK_DEADLOCK FALSE
