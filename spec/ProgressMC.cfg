SPECIFICATION Spec
CONSTANTS
  Stages = 2
  Units = 3
  Workers = {1, 2}
  Counted = TRUE
  Recheck = TRUE
  CloseLocks = TRUE
INVARIANTS InOrder Complete Frozen
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
