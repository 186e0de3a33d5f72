SPECIFICATION Spec
CONSTANTS
  Args = {1,2,3}
  Depth = 4
  Stores = {"none","dict","falsy","fifo1","fifo2","full"}
INVARIANT Bounded
CHECK_DEADLOCK FALSE
