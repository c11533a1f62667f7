SPECIFICATION Spec
CONSTANTS
  N = 3
  Values = {0, 1}
  Rows = 3
  Most = 3
  Emit = TRUE
INVARIANTS Ranked Partition FullIsAll Bounded Turned
CHECK_DEADLOCK FALSE
