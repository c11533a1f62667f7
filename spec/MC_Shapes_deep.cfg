SPECIFICATION Spec
CONSTANTS
  N = 4
  Emit = TRUE
INVARIANTS Range01 Pencil Symmetric Rotated ThrustBound
CHECK_DEADLOCK FALSE
