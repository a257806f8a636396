SPECIFICATION TraceSpec
INVARIANTS Explained NeverPartial ReportedIsLoadable
CHECK_DEADLOCK FALSE
