SPECIFICATION Spec
CONSTANTS
  M = 3
  Values = {0, 1, 3}
  Rows = 3
  MostF = 3
  MostC = 4
  Emit = TRUE
INVARIANTS Minimal Unordered Shifted Fewer ExpLaws
CHECK_DEADLOCK FALSE
