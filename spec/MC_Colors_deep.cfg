SPECIFICATION Spec
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  Lines = {0, 501, 502}
