INIT Init
NEXT Step
CONSTANTS
  Fault = FALSE
  Emit = TRUE
INVARIANTS Quiet Complete Reported Counters Report
CHECK_DEADLOCK FALSE
