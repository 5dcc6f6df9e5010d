SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2, 3}
  Values <- Vals
INVARIANTS Typed Order
PROPERTY OneLeft
CHECK_DEADLOCK FALSE
