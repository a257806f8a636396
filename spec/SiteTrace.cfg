SPECIFICATION TraceSpec
INVARIANTS Explained Arrives
CHECK_DEADLOCK FALSE
