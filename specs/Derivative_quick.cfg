SPECIFICATION Spec
CONSTANTS
  Ns = {2, 3, 4, 5, 6, 7, 9, 12}
  Orders = {2, 4}
  MaxOps = 1
  Vals = {1}
INVARIANTS Linear PoleZero Exact Known Antisymmetric Emit
CHECK_DEADLOCK FALSE
