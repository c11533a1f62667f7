SPECIFICATION Spec
CONSTANTS
  M = 3
  Values = {0, 1, 3}
  Rows = 2
  MostF = 2
  MostC = 3
  Emit = TRUE
INVARIANTS Minimal Unordered Shifted Fewer ExpLaws
CHECK_DEADLOCK FALSE
