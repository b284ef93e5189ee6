SPECIFICATION Spec
CONSTANTS
  Last = 48942
INVARIANTS
  P20_Civil P20_Weekday
CHECK_DEADLOCK FALSE
