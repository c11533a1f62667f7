SPECIFICATION Spec
CONSTANTS
  Reach = 5
  Most = 400
  Sizes = {0, 1, 2, 7}
  Emit = TRUE
INVARIANTS Classes Mirrored Once
CHECK_DEADLOCK FALSE
