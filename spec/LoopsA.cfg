SPECIFICATION Spec
CONSTANTS
  Threads = {1,2}
  Addrs = {1,2}
  MaxLoops = 3
  Weak = TRUE
  PerLoop = TRUE
INVARIANTS Own One
CHECK_DEADLOCK FALSE
