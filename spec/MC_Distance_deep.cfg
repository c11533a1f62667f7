SPECIFICATION Spec
CONSTANTS
  Etas <- DeepEtas
  Phis <- DeepPhis
  Emit = TRUE
  MaxDepth = 3
INVARIANTS Restored Geometry Triangle
CHECK_DEADLOCK FALSE
