SPECIFICATION TraceSpec
CONSTANTS
  Lab = {"a","b","c","d","e","f","g","h"}
  MaxOps = 100000
  WithFin = TRUE
  Emit = FALSE
INVARIANTS TypeOK ClassesRight CanonicalIsMember Done
CHECK_DEADLOCK FALSE
