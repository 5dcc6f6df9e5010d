SPECIFICATION Spec
CONSTANTS Step = 5
          Rubbish = 65
          Neighbours = FALSE
          MaxLen = 6
INVARIANTS Same Right
CHECK_DEADLOCK FALSE
