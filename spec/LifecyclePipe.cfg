SPECIFICATION Spec
CONSTANTS
  NStorages = 3
  Scans = 2
  Tokens = 2
  Bundles = {"b1", "b2"}
  MaxFaults = 1
INVARIANTS NothingLeft Told SourceClosed
PROPERTY Ends
