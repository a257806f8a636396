SPECIFICATION Spec
CONSTANTS
  MaxTotal = 9
  MaxLimit = 6
INVARIANTS LinksExist WalkComplete WalkSoFar
PROPERTY Contract
CHECK_DEADLOCK FALSE
