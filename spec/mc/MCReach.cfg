SPECIFICATION Spec
CONSTANTS MaxLen = 10
          FromStart = FALSE
INVARIANTS Seldom Proportional Everything
CHECK_DEADLOCK FALSE
