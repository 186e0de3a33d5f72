SPECIFICATION LiveSpec
CONSTANTS
  Prog <- P1
  MaxFail = 1
  Shutdown = TRUE
  EndOnCancel = FALSE
  ReturnOnSuccess = TRUE
INVARIANT Safe
PROPERTIES ShutdownEnds
CHECK_DEADLOCK FALSE
