SPECIFICATION Spec
CONSTANTS MaxLen = 14
          FromStart = FALSE
INVARIANTS Seldom Proportional Everything
CHECK_DEADLOCK FALSE
