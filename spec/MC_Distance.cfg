SPECIFICATION Spec
CONSTANTS
  Etas <- SmallEtas
  Phis <- SmallPhis
  Emit = TRUE
  MaxDepth = 2
INVARIANTS Restored Geometry Triangle
CHECK_DEADLOCK FALSE
