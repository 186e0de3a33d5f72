SPECIFICATION Spec
CONSTANTS
  KeyOf <- D4
  Size = 2
  Conc = 1
  Bto = 2
  Ret = 0
  MaxT = 4
  MaxCancel = 0
  Kinds = {"val"}
  Shielded = TRUE
  OnDone = TRUE
INVARIANTS Contract Answered Forgotten RightKey
VIEW View
