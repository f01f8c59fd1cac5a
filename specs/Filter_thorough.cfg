SPECIFICATION SpecImpulse
CONSTANTS
  Rows = 4
  Cols = 6
  Vals = {}
  Windows <- WindowsSmall
  MaxOps = 2
INVARIANTS Result Commute Constants ZonalMean Emit
CHECK_DEADLOCK FALSE
