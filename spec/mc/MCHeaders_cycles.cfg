SPECIFICATION Spec
CONSTANTS H = {h1, h2, h3}
          MaxReads = 3
          MaxUnits = 2
          Without = "cycles"
INVARIANTS Rules Compiles Available Links
CHECK_DEADLOCK FALSE
