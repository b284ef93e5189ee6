SPECIFICATION Spec
VIEW Seen
CONSTANTS
  Depth = @Depth
  Emit = @Emit
INVARIANTS
  P01_Spread P01_Value P01_Fine
PROPERTIES
  P01_Accepted
CHECK_DEADLOCK FALSE
