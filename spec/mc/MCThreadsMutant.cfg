SPECIFICATION Spec
CONSTANTS Thread = {"t1", "t2"}
          SharedScratch = TRUE
INVARIANT AsIfAlone
CHECK_DEADLOCK FALSE
