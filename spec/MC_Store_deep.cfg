SPECIFICATION Spec
CONSTANTS
  Values = {1, 2}
  MaxObjs = 5
  MaxSteps = 4
  MaxQueries = 2
  Faults = {"none", "shared copy", "cache follows", "stale", "scratch", "input", "partial"}
  Emit = TRUE
INVARIANTS Quiet Sound Complete Meaningful Emitted
CHECK_DEADLOCK FALSE
