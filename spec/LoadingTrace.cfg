SPECIFICATION TraceSpec
INVARIANTS Explained NothingTooEarly
CHECK_DEADLOCK FALSE
