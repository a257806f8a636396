SPECIFICATION Spec
CONSTANTS
  Lab = {}
CHECK_DEADLOCK FALSE
