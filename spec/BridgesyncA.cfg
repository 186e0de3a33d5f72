SPECIFICATION Spec
CONSTANTS
  Dir = "sync"
  MaxLen = 4
  MarkAlways = TRUE
  LookAtOutcome = TRUE
INVARIANTS Prefix Contract
PROPERTY Finishes
CHECK_DEADLOCK FALSE
