SPECIFICATION Spec
CONSTANTS
  NThreads = 3
  NObjects = 2
  MaxRounds = 1
  MaxFaults = 0
  MaxCrashes = 0
  ThreadProc <- P111
  ObjectProc <- P11
  Kinds = {"nb", "bl", "tm"}
INVARIANTS Contract Exclusion TruthfulFlag NoResidue KernelOwned
VIEW View
