SPECIFICATION Spec
CONSTANTS N = 3 MaxLen = 2
INVARIANTS Meaning Complete Inverse
CHECK_DEADLOCK FALSE
