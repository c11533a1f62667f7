SPECIFICATION Spec
CONSTANTS
  Most = 3
  Radii = {1000, 600000, 20000000}
  Powers <- PowersSmall
  Emit = TRUE
INVARIANTS Partition Tracked Confluent Turned Extremes CutOk
PROPERTY Ends
CHECK_DEADLOCK FALSE
