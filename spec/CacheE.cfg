SPECIFICATION Spec
CONSTANTS
  NLoops = 2
  CallLoop <- C12
  MaxFail = 0
  MaxCancel = 1
  MayStop = {1}
  MaxEvict = 1
INVARIANTS Contract MarkerRight TypeOK
PROPERTY Terminates
CHECK_DEADLOCK FALSE
