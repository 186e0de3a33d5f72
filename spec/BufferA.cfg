SPECIFICATION LiveSpec
CONSTANTS
  Prog <- P1
  MaxFail = 1
  Shutdown = FALSE
  EndOnCancel = TRUE
  ReturnOnSuccess = TRUE
INVARIANT Safe
PROPERTIES Delivered WaitsReturn
CHECK_DEADLOCK FALSE
