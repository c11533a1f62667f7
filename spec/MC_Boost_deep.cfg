SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Emit = TRUE
INVARIANTS Conserved Additive Undone PathMatches
CHECK_DEADLOCK FALSE
