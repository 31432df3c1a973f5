SPECIFICATION Spec
CONSTANTS
 Bug = "early"
 N = 2
CHECK_DEADLOCK FALSE
INVARIANTS Right NoEarly One LastSwitch Coped
PROPERTY Goes
