SPECIFICATION Spec
CONSTANTS
  Most = 4
  Radii = {1000, 600000, 20000000}
  Powers <- PowersTwo
  Emit = TRUE
INVARIANTS Partition Tracked Confluent Turned Extremes CutOk
PROPERTY Ends
CHECK_DEADLOCK FALSE
