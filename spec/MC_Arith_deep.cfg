SPECIFICATION Spec
CONSTANTS MaxRows = 3
  Kinds0 = {"pdg", "mask", "color"}
INVARIANTS Commutes Mirrors TypesKept LastIsTotal TotalBothWays EqualLaws Emit
CHECK_DEADLOCK FALSE
