SPECIFICATION TraceSpec
CONSTANT
  Check = "errors"
INVARIANT Explained
CHECK_DEADLOCK FALSE
