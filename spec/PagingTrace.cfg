SPECIFICATION TraceSpec
INVARIANTS Explained WalkComplete WalkSoFar
CHECK_DEADLOCK FALSE
