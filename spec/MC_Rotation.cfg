SPECIFICATION Spec
CONSTANTS
  Depth = 1
  Emit = TRUE
INVARIANTS Rigid Local
CHECK_DEADLOCK FALSE
