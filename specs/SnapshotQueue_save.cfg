SPECIFICATION Spec
CONSTANTS
  N = 6
  Mode = "save"
  ClosesOnExit = TRUE
INVARIANTS Complete FailureReported NoDup
PROPERTY Ends
CHECK_DEADLOCK FALSE
