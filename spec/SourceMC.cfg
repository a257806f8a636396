SPECIFICATION Spec
INVARIANTS Refines RegularFiles AllOrNothing
CHECK_DEADLOCK FALSE
CONSTANTS
  Max = 2
  Exactly = TRUE
  Regular = TRUE
