SPECIFICATION Spec
CONSTANT Vals <- Pool
INVARIANTS Agrees Laws
CHECK_DEADLOCK FALSE
