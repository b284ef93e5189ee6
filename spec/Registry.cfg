SPECIFICATION Spec
VIEW Seen
CONSTANTS
  Depth = @Depth
  Emit = @Emit
INVARIANTS
  P30_Unique P30_BothWays P30_Known P30_Find
PROPERTIES
  P30_Refused P30_Kept P30_KeptIndicators
CHECK_DEADLOCK FALSE
