SPECIFICATION Spec
CONSTANTS
  Requests = {1, 2, 3}
  FlagLast = TRUE
  Stops = TRUE
INVARIANTS NoCrash Answered NothingTooEarly NothingTooLate
PROPERTY AllAnswered
CHECK_DEADLOCK FALSE
