INIT Init
NEXT Next
CONSTANTS
  Strata <- S_
  Rows <- RW
  Cols <- CW
  Where <- WhereW
  OnPlaced <- P_
  OnAnswered <- A_
INVARIANTS TypeOK Placed Answered
CHECK_DEADLOCK FALSE
