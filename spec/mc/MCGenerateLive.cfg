SPECIFICATION Spec
CONSTANTS N = 3 MaxLen = 2
PROPERTIES Stops
CHECK_DEADLOCK FALSE
