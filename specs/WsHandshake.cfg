SPECIFICATION Spec
CONSTANTS
 Bug = "none"
 N = 2
CHECK_DEADLOCK FALSE
INVARIANTS Right NoEarly One LastSwitch Coped
PROPERTY Goes
