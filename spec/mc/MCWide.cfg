SPECIFICATION Spec
CONSTANTS Near = 40
          MaxLen = 4
INVARIANTS Octets Decodes Standard Shortest SelfSync Accepted
CHECK_DEADLOCK FALSE
