SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Emit = TRUE
INVARIANTS Rigid Local
CHECK_DEADLOCK FALSE
