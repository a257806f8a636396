SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxDepth = 2
  Emit = TRUE
INVARIANTS Refines Safe NoImages Stays Cases
CHECK_DEADLOCK FALSE
