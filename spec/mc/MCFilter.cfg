SPECIFICATION Spec
CONSTANTS Elements = {1, 2}
          MaxLen = 4
          Values <- MCValues
INVARIANTS SumIsSum OncePerElement
PROPERTY Terminates
CHECK_DEADLOCK FALSE
