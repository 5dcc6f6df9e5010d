SPECIFICATION Spec
CONSTANTS Classes = {0, 4}
          MaxLen = 3
          LookBack = FALSE
INVARIANTS FindsTheGrapheme LooksInside
CHECK_DEADLOCK FALSE
