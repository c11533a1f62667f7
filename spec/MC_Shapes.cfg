SPECIFICATION Spec
CONSTANTS
  N = 3
  Emit = TRUE
INVARIANTS Range01 Pencil Symmetric Rotated ThrustBound
CHECK_DEADLOCK FALSE
