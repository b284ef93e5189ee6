SPECIFICATION Spec
VIEW Seen
CONSTANTS
  World <- MCWorld
  Start <- MCStart
  TickSet <- MCTicks
  AttachSet <- MCAttach
  Depth = @Depth
  Emit = @Emit
INVARIANTS
  P19_Contiguous P19_Periods P19_Filled P19_Latest P21_Sizes P21_Each P22_Described P23_Bound
  P23_Recent P24_Eligible P24_Alone P25_Sane P26_Sane P27_Closes P28_Changes P28_Refused P29_Order
PROPERTIES
  P22_Final
CHECK_DEADLOCK FALSE
