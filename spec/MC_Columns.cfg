SPECIFICATION Spec
CONSTANT MaxRows = 2
INVARIANTS Lossless WidthKept NothingInvented WrongWidthRefused Emit
CHECK_DEADLOCK FALSE
