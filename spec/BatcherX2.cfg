SPECIFICATION Spec
CONSTANTS
  KeyOf <- K3
  Size = 3
  Conc = 1
  Bto = 1
  Ret = 2
  MaxT = 5
  MaxCancel = 1
  Kinds = {"val", "exc", "raise", "omit"}
  Shielded = TRUE
  OnDone = FALSE
INVARIANTS Contract Answered Forgotten RightKey
VIEW View
