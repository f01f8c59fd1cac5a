SPECIFICATION Spec
CONSTANTS
  Nlat = 5
  Nlon = 8
  Pool <- States
  MaxStates = 4
  Lengths = {1, 4, 5, 8, 9, 40}
  Values <- Extremes
  Numbers = {2, 3, 4, 5, 10, 11, 17, 30}
INVARIANTS AllOnce Axes TimeOrder Refused AboutZero Emit
CHECK_DEADLOCK FALSE
