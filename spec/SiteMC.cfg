SPECIFICATION Spec
CONSTANTS
  N = 3
  Bundles = {1, 2}
INVARIANTS Arrives
PROPERTIES Contract Answered Reached
CHECK_DEADLOCK FALSE
