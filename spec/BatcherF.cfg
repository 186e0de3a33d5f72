SPECIFICATION Spec
CONSTANTS
  KeyOf <- K1
  Size = 3
  Conc = 1
  Bto = 1
  Ret = 0
  MaxT = 3
  MaxCancel = 1
  Kinds = {"val", "exc", "raise", "omit"}
  Shielded = TRUE
  OnDone = TRUE
INVARIANTS Contract Answered Forgotten RightKey
VIEW View
