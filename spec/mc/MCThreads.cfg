SPECIFICATION Spec
CONSTANTS Thread = {"t1", "t2"}
          SharedScratch = FALSE
INVARIANT AsIfAlone
CHECK_DEADLOCK FALSE
