SPECIFICATION Spec
CONSTANTS N = 4 MaxLen = 2
INVARIANTS Meaning Complete Inverse
CHECK_DEADLOCK FALSE
