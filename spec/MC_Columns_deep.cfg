SPECIFICATION Spec
CONSTANT MaxRows = 4
INVARIANTS Lossless WidthKept NothingInvented WrongWidthRefused Emit
CHECK_DEADLOCK FALSE
