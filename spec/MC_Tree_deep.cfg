SPECIFICATION Spec
INVARIANT Lawful
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 3
