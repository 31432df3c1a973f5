SPECIFICATION Spec
CONSTANTS
  Names <- Names_
  Contents = {"x", "yy"}
  MaxTime = 2
  CountReplacedOnMove = TRUE
  FailedMoveChanges = TRUE
  CountLoads = TRUE
  Snapshots = TRUE
INVARIANTS StatsMatch LowerOnly TimesOrdered
PROPERTY MoveCarries
CHECK_DEADLOCK FALSE
