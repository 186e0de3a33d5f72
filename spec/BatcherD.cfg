SPECIFICATION Spec
CONSTANTS
  KeyOf <- K5
  Size = 2
  Conc = 2
  Bto = 2
  Ret = 0
  MaxT = 5
  MaxCancel = 0
  Kinds = {"val"}
  Shielded = TRUE
  OnDone = TRUE
INVARIANTS Contract Answered Forgotten RightKey
VIEW View
