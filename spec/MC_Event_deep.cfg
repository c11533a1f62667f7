SPECIFICATION Spec
INVARIANT Recovers
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxHard = 5
  Emitting = TRUE
