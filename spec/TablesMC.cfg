SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  MaxBatch = 3
  MaxVars = 7
  Exports = 2
  Rest = TRUE
  Once = TRUE
  Drop = TRUE
