SPECIFICATION Spec
CONSTANTS
  Callers = {1,2,3}
  Lit = TRUE
  Pending = TRUE
  Recheck = TRUE
  TryLock = TRUE
  Locked = TRUE
INVARIANTS OneRunner Prompt
PROPERTY Completes
CHECK_DEADLOCK FALSE
