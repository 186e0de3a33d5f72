SPECIFICATION Spec
CONSTANTS
  NLoops = 2
  CallLoop <- C12
  MaxFail = 1
  MaxCancel = 1
  MayStop = {1}
  MaxEvict = 0
INVARIANTS Contract MarkerRight TypeOK
PROPERTY Terminates
CHECK_DEADLOCK FALSE
