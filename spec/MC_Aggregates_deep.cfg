SPECIFICATION Spec
CONSTANTS
  N = 6
  Emit = TRUE
INVARIANTS Inclusion OrderFree Monotonic
CHECK_DEADLOCK FALSE
