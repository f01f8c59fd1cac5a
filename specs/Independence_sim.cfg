SPECIFICATION SimSpec
CONSTANTS
  Grids <- AllGrids
  Regions <- AllRegions
  Flows <- AllFlows
  Terms <- AllTerms
  Times = {1, 2}
  GridCalls <- GridSeq
  RegionCalls <- RegionSeq
  StateCalls <- StateSeq
  TermCalls <- TermSeq
  Foci <- AllFoci
  MaxObjs = 6
  Depth = 28
INVARIANTS Rooted Bounded Owned Faithful Emit
PROPERTIES Frame SymbolsStay
CHECK_DEADLOCK FALSE
