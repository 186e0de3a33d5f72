SPECIFICATION Spec
CONSTANTS
  KeyOf <- K4
  Size = 2
  Conc = 1
  Bto = 1
  Ret = 2
  MaxT = 4
  MaxCancel = 1
  Kinds = {"val", "raise"}
  Shielded = TRUE
  OnDone = TRUE
INVARIANTS Contract Answered Forgotten RightKey
VIEW View
