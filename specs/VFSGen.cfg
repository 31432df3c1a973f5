SPECIFICATION Spec
CONSTANTS
  Names <- Names_
  Contents = {"x", "yy"}
  MaxTime = 1
  CountReplacedOnMove = TRUE
  FailedMoveChanges = FALSE
  CountLoads = TRUE
  Snapshots = FALSE
INVARIANTS StatsMatch LowerOnly TimesOrdered
CHECK_DEADLOCK FALSE
