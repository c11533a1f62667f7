SPECIFICATION Spec
INVARIANT Laws
INVARIANT Lineal
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Labels <- Four
  MaxEdges = 3
  Dag = TRUE
  CaseKind = "lineage"
