SPECIFICATION Spec
CONSTANTS
  Trailer = 2
  ReportFinish = TRUE
  ReportClose = TRUE
  CountFirst = TRUE
INVARIANTS NeverPartial ReportedIsLoadable CompleteIsReported
CHECK_DEADLOCK FALSE
