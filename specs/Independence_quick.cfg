SPECIFICATION Spec
CONSTANTS
  Grids <- Two
  Regions <- One
  Flows <- One
  Terms <- One
  Times = {1}
  GridCalls <- Call1
  RegionCalls <- Call1
  StateCalls <- Call1
  TermCalls <- Call1
  Foci = {0}
  MaxObjs = 3
  Depth = 5
INVARIANTS Rooted Bounded Owned Faithful Emit
PROPERTIES Frame SymbolsStay
CHECK_DEADLOCK FALSE
