SPECIFICATION Spec
CONSTANTS
  KeyOf <- K3
  Size = 2
  Conc = 2
  Bto = 1
  Ret = 2
  MaxT = 4
  MaxCancel = 0
  Kinds = {"val", "exc", "raise", "omit"}
  Shielded = TRUE
  OnDone = TRUE
INVARIANTS Contract Answered Forgotten RightKey
VIEW View
