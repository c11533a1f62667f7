SPECIFICATION Spec
CONSTANTS
  N = 4
  Emit = TRUE
INVARIANTS Inclusion OrderFree Monotonic
CHECK_DEADLOCK FALSE
