SPECIFICATION Spec
CONSTANTS
  Steps = 3
  WipeIndex = TRUE
  WipeBundles = TRUE
  Links = TRUE
  Valid = TRUE
  Number = TRUE
  Emit = FALSE
INVARIANTS Refines Emitted
CHECK_DEADLOCK FALSE
