INIT Init
NEXT Next
CONSTANTS
  Strs <- MCStrs
  MaxRecs = 3
INVARIANTS RoundTrip NoTornPrefix
CHECK_DEADLOCK FALSE
