SPECIFICATION TraceSpec
INVARIANTS Explained
CHECK_DEADLOCK FALSE
