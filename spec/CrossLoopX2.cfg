SPECIFICATION Spec
CONSTANTS
  Callers = {1,2}
  Lit = FALSE
  Pending = TRUE
  Recheck = FALSE
  TryLock = TRUE
  Locked = TRUE
INVARIANT OneRunner
PROPERTY Completes
CHECK_DEADLOCK FALSE
