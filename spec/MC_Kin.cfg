SPECIFICATION Spec
CONSTANTS
  Comps <- SmallComps
  Energies = {0, 1, 2, 5}
  Emit = TRUE
INVARIANTS Decomposes RapidityBelowEta PtSharp MassSigned PhiSharp
CHECK_DEADLOCK FALSE
