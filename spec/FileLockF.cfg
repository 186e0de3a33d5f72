SPECIFICATION Spec
CONSTANTS
  NThreads = 2
  NObjects = 2
  MaxRounds = 2
  MaxFaults = 2
  MaxCrashes = 1
  ThreadProc <- P12
  ObjectProc <- P12
  Kinds = {"nb", "bl", "tm"}
INVARIANTS Contract Exclusion TruthfulFlag NoResidue KernelOwned
VIEW View
