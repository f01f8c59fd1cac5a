SPECIFICATION Spec
CONSTANTS
  Ns = {2, 3, 4, 5, 6, 7, 9, 12, 15, 18, 20, 24, 30, 36}
  Orders = {2, 4}
  MaxOps = 1
  Vals = {1}
INVARIANTS Linear PoleZero Exact Known Antisymmetric Emit
CHECK_DEADLOCK FALSE
