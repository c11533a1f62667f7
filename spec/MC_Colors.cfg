SPECIFICATION Spec
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  Lines = {0, 501, 502}
