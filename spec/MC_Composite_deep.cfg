SPECIFICATION Spec
CONSTANTS N = 3
  MaxKey = 3
  Steps = 2
INVARIANTS AlwaysAligned Chosen LengthIs Emit
PROPERTY AbsentStays
CHECK_DEADLOCK FALSE
