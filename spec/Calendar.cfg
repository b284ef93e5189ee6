SPECIFICATION Spec
VIEW Seen
CONSTANTS
  Depth = @Depth
  Emit = @Emit
INVARIANTS
  P20_Grid P20_Nearest P20_Stable P20_Showing P20_Resolved P20_Nest
CHECK_DEADLOCK FALSE
