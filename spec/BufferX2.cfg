SPECIFICATION Spec
CONSTANTS
  Prog <- P1
  MaxFail = 1
  Shutdown = FALSE
  EndOnCancel = TRUE
  ReturnOnSuccess = FALSE
INVARIANT Safe
CHECK_DEADLOCK FALSE
