SPECIFICATION Spec
CONSTANTS
  Dir = "async"
  MaxLen = 4
  MarkAlways = TRUE
  LookAtOutcome = FALSE
INVARIANTS Prefix Contract
PROPERTY Finishes
CHECK_DEADLOCK FALSE
