INIT Init
NEXT Next
CONSTANTS
  Strata <- S_
  Rows <- R_
  Cols <- C_
  Where <- W_
  OnPlaced <- P_
  OnAnswered <- A_
INVARIANTS TypeOK Placed Answered
CHECK_DEADLOCK FALSE
