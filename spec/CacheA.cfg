SPECIFICATION Safe
CONSTANTS
  NLoops = 2
  CallLoop <- C112
  MaxFail = 1
  MaxCancel = 1
  MayStop = {1, 2}
  MaxEvict = 0
INVARIANTS Contract MarkerRight TypeOK

CHECK_DEADLOCK FALSE
