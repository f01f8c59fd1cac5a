SPECIFICATION Spec
CONSTANTS
  NumU = 2
  NumV = 2
  NumVo = 2
  NumAvo = 2
  MaxUser = 1
INVARIANTS Complete Priority First UserWins Possible Emit
CHECK_DEADLOCK FALSE
