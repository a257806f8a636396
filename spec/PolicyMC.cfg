SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Escaping = TRUE
  Blanks = TRUE
INVARIANTS Follows NoForeignScripts StrictMeansPublic
CHECK_DEADLOCK FALSE
