SPECIFICATION Spec
CONSTANTS
  NumU = 3
  NumV = 3
  NumVo = 4
  NumAvo = 4
  MaxUser = 3
INVARIANTS Complete Priority First UserWins Possible Emit
CHECK_DEADLOCK FALSE
