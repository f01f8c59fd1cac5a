SPECIFICATION SpecImpulse
CONSTANTS
  Rows = 3
  Cols = 4
  Vals = {}
  Windows <- WindowsSmall
  MaxOps = 2
INVARIANTS Result Commute Constants ZonalMean Emit
CHECK_DEADLOCK FALSE
