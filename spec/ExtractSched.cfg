SPECIFICATION Spec
CONSTANTS
  Fault = FALSE
  Emit = FALSE
INVARIANTS Quiet Complete Reported Counters Report
PROPERTIES Refines Terminates
CHECK_DEADLOCK TRUE
