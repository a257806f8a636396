SPECIFICATION Spec
INVARIANTS Immutable Answered
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  Queries = {1, 2}
  MaxChanges = 2
  Refuse = TRUE
  Private = TRUE
  Cancel = TRUE
