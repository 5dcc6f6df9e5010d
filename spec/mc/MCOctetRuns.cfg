SPECIFICATION Spec
CONSTANTS Octets = {65, 63, 128, 191, 195, 226, 240, 248, 252, 254, 255}
          Times = {1, 2, 7}
          MaxRuns = 3
INVARIANTS SameCheck SameRepair SameTotal
CHECK_DEADLOCK FALSE
