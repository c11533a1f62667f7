SPECIFICATION Spec
CONSTANTS Codes <- Labels
  Statuses <- Stats
  MaxLen = 2
INVARIANTS Complement SignWeaker SignSymmetric OrderFree EmptyTarget HardParts InclusiveBounds Emit
CHECK_DEADLOCK FALSE
