SPECIFICATION Spec
CONSTANTS
  NThreads = 3
  NObjects = 3
  MaxRounds = 1
  MaxFaults = 1
  MaxCrashes = 2
  ThreadProc <- P123
  ObjectProc <- P123
  Kinds = {"nb", "bl", "tm"}
INVARIANTS Contract Exclusion TruthfulFlag NoResidue KernelOwned
VIEW View
