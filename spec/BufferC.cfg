SPECIFICATION Spec
CONSTANTS
  Prog <- P3
  MaxFail = 1
  Shutdown = FALSE
  EndOnCancel = TRUE
  ReturnOnSuccess = TRUE
INVARIANT Safe
CHECK_DEADLOCK FALSE
