SPECIFICATION LiveSpec
CONSTANTS
  Prog <- P2
  MaxFail = 2
  Shutdown = FALSE
  EndOnCancel = TRUE
  ReturnOnSuccess = TRUE
INVARIANT Safe
PROPERTIES Delivered WaitsReturn
CHECK_DEADLOCK FALSE
