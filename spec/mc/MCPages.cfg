SPECIFICATION Spec
CONSTANTS
  MaxUnits = 5
  MaxSize = 4
  MaxLimit = 9
INVARIANTS Covers Whole Fits Alone Longest
PROPERTY Done
CHECK_DEADLOCK FALSE
