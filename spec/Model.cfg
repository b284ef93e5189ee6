SPECIFICATION Spec
VIEW Seen
CONSTANTS
  World <- MCWorld
  Start <- MCStart
  TickSet <- MCTicks
  OpSet <- MCOps
  NestedSet <- MCNested
  MaxNested = @MaxNested
  Depth = @Depth
  MaxTrades = @MaxTrades
  Emit = @Emit
INVARIANTS
  P04_Calls P04_Order P05_Alternate P05_Last P07_Updated
  P09_Bounds P10_Money P10_Split P12_Extremes P13_OneDirection P14_Once P14_Exactly P14_Ordered
  P14_Opened P15_Requests P15_Alive P16_Queries P17_Split P17_Reverse P31_Served
PROPERTIES
  P02_Monotone P02_Refused P02_Accepted P03_Flag P06_Active P06_Resumed P06_Others P07_Priced
  P08_Isolated P08_TradesKeepTicks P09_Close P09_Market P09_Final P10_Spread P11_Closes P11_Closed
  P13_Net P13_NewestFirst P13_Untouched P13_Reduced P13_Recorded P14_Append P14_Live P15_Finish P16_CloseAll P16_CloseSome
  P31_Given P31_Kept P31_Status P32_Stays P32_Ended P33_Nothing
CHECK_DEADLOCK FALSE
