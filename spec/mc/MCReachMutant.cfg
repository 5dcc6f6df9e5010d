SPECIFICATION Spec
CONSTANTS MaxLen = 14
          FromStart = TRUE
INVARIANTS Seldom Proportional Everything
CHECK_DEADLOCK FALSE
