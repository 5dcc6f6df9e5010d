SPECIFICATION Spec
CONSTANTS H = {h1, h2, h3}
          MaxReads = 4
          MaxUnits = 3
          Without = "none"
INVARIANTS Rules Compiles Available Links
CHECK_DEADLOCK FALSE
