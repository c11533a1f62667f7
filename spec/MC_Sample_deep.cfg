SPECIFICATION Spec
CONSTANTS
  Reach = 12
  Most = 3000
  Sizes = {0, 1, 2, 7, 30, 64}
  Emit = TRUE
INVARIANTS Classes Mirrored Once
CHECK_DEADLOCK FALSE
