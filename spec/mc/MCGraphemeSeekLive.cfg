SPECIFICATION Spec
CONSTANTS Classes = {0, 1, 2, 4, 12}
          MaxLen = 4
          LookBack = TRUE
PROPERTY Terminates
CHECK_DEADLOCK FALSE
