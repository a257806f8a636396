SPECIFICATION Spec
CONSTANTS
  Lab = {"x","y","z","C","D","E","p","q","r","n","m","e","type","same","eqc","eqp","inv"}
  Mode = "up"
  MaxLen = 4
  MinLen = 1
  Base = "none"
  Emit = "queries"
INVARIANTS CanonRight InverseRight IndexRight LabelRight CountRight MaskRight EmitQueries EmitBundles
CHECK_DEADLOCK FALSE
