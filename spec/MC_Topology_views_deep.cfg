SPECIFICATION Spec
INVARIANT Laws
INVARIANT Lineal
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Labels <- Three
  MaxEdges = 4
  Dag = FALSE
  CaseKind = "views"
