SPECIFICATION Spec
CONSTANTS
  Names <- NamesSmall
  Contents = {"x"}
  MaxTime = 1
  CountReplacedOnMove = TRUE
  FailedMoveChanges = FALSE
  CountLoads = TRUE
  Snapshots = TRUE
INVARIANTS StatsMatch LowerOnly TimesOrdered
CHECK_DEADLOCK FALSE
