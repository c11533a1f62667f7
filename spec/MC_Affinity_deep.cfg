SPECIFICATION Spec
CONSTANTS
  N = 3
  Values = {0, 1, 3}
  Rows = 3
  Most = 4
  Emit = TRUE
INVARIANTS Ranked Partition FullIsAll Bounded Turned
CHECK_DEADLOCK FALSE
