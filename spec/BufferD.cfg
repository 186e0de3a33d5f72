SPECIFICATION Spec
CONSTANTS
  Prog <- P4
  MaxFail = 2
  Shutdown = FALSE
  EndOnCancel = TRUE
  ReturnOnSuccess = TRUE
INVARIANT Safe
CHECK_DEADLOCK FALSE
