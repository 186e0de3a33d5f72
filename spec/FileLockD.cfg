SPECIFICATION Spec
CONSTANTS
  NThreads = 2
  NObjects = 2
  MaxRounds = 2
  MaxFaults = 1
  MaxCrashes = 0
  ThreadProc <- P11
  ObjectProc <- P11
  Kinds = {"nb", "bl", "tm"}
INVARIANTS Contract Exclusion TruthfulFlag NoResidue KernelOwned
VIEW View
