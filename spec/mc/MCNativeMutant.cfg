SPECIFICATION Spec
CONSTANTS Step = 3
          Rubbish = 65
          Neighbours = TRUE
          MaxLen = 3
INVARIANTS Same Right
CHECK_DEADLOCK FALSE
