SPECIFICATION Spec
INVARIANT Laws
INVARIANT Lineal
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Labels <- Four
  MaxEdges = 4
  Dag = TRUE
  CaseKind = "lineage"
