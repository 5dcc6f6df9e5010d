SPECIFICATION Spec
CONSTANTS Step = 3
          Rubbish = 65
          Neighbours = FALSE
          MaxLen = 4
INVARIANTS Same Right
CHECK_DEADLOCK FALSE
