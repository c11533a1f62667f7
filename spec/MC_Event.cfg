SPECIFICATION Spec
INVARIANT Recovers
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxHard = 4
  Emitting = TRUE
