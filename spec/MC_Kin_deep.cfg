SPECIFICATION Spec
CONSTANTS
  Comps <- DeepComps
  Energies = {0, 1, 2, 3, 4, 5, 6}
  Emit = TRUE
INVARIANTS Decomposes RapidityBelowEta PtSharp MassSigned PhiSharp
CHECK_DEADLOCK FALSE
