SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Emit = TRUE
INVARIANTS Conserved Additive Undone PathMatches
CHECK_DEADLOCK FALSE
