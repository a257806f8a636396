SPECIFICATION TraceSpec
INVARIANTS Explained NoForeignScripts StrictMeansPublic
CHECK_DEADLOCK FALSE
