SPECIFICATION Spec
CONSTANTS
 Bug = "mode"
 N = 2
CHECK_DEADLOCK FALSE
INVARIANTS Right NoEarly One LastSwitch Coped
PROPERTY Goes
