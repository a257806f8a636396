SPECIFICATION Spec
CONSTANTS
  Files = 3
  Units = 4
  Buf = 3
  CheckOptions = TRUE
  CheckRead = TRUE
  CheckExtract = TRUE
  CheckWrite = TRUE
  CheckFlush = TRUE
  CheckClose = TRUE
  AllFiles = TRUE
INVARIANTS Refines Conserved
CHECK_DEADLOCK FALSE
