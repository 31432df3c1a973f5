SPECIFICATION Spec
CONSTANTS
  N = 6
  Mode = "load"
  ClosesOnExit = FALSE
INVARIANTS Complete FailureReported NoDup
PROPERTY Ends
CHECK_DEADLOCK FALSE
