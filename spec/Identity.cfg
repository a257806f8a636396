SPECIFICATION Spec
CONSTANTS
  Lab = {"a","b","c"}
  MaxOps = 4
  WithFin = FALSE
  Emit = TRUE
INVARIANTS TypeOK ClassesRight CanonicalIsMember AliasesRight EmitHist
PROPERTIES SubjectWins FinalIsFinal
CHECK_DEADLOCK FALSE
