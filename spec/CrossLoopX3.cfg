SPECIFICATION Spec
CONSTANTS
  Callers = {1,2}
  Lit = FALSE
  Pending = TRUE
  Recheck = TRUE
  TryLock = TRUE
  Locked = FALSE
INVARIANT OneRunner
PROPERTY Completes
CHECK_DEADLOCK FALSE
