SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Keys = {"a", "b"}
  Vals = {"x", "y"}
  MaxLog = 3
  MaxCrashes = 2
  InPlaceCompaction = FALSE
  Locking = TRUE
CONSTRAINT Bound
INVARIANTS MemMatchesFile NothingLost MutualExclusion LoadedMatches
CHECK_DEADLOCK FALSE
