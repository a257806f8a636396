SPECIFICATION TraceSpec
CONSTANTS
  Lab = {}
INVARIANT Explained
CHECK_DEADLOCK FALSE
