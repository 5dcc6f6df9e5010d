SPECIFICATION Spec
CONSTANTS Classes = {0, 1, 2, 4, 5, 7, 8, 12, 13, 15}
          MaxLen = 4
          LookBack = TRUE
INVARIANTS FindsTheGrapheme LooksInside
CHECK_DEADLOCK FALSE
