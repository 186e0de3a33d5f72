SPECIFICATION Safe
CONSTANTS
  NLoops = 2
  CallLoop <- C112
  MaxFail = 0
  MaxCancel = 1
  MayStop = {1, 2}
  MaxEvict = 1
INVARIANTS Contract MarkerRight TypeOK

CHECK_DEADLOCK FALSE
