SPECIFICATION Spec
CONSTANTS
  NThreads = 3
  NObjects = 2
  MaxRounds = 1
  MaxFaults = 1
  MaxCrashes = 1
  ThreadProc <- P112
  ObjectProc <- P12
  Kinds = {"nb", "bl", "tm"}
INVARIANTS Contract Exclusion TruthfulFlag NoResidue KernelOwned
VIEW View
