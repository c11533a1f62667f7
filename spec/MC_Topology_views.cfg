SPECIFICATION Spec
INVARIANT Laws
INVARIANT Lineal
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Labels <- Three
  MaxEdges = 3
  Dag = FALSE
  CaseKind = "views"
