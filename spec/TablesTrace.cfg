SPECIFICATION TraceSpec
INVARIANT Explained
CHECK_DEADLOCK FALSE
