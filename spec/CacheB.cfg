SPECIFICATION Safe
CONSTANTS
  NLoops = 3
  CallLoop <- C123
  MaxFail = 1
  MaxCancel = 1
  MayStop = {1, 2}
  MaxEvict = 0
INVARIANTS Contract MarkerRight TypeOK

CHECK_DEADLOCK FALSE
