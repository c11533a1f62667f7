SPECIFICATION Spec
INVARIANT Lawful
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 1
  EmitPairs = TRUE
