SPECIFICATION Spec
CONSTANTS Codepoints = {97, 769, 803, 7779, 4352, 4449, 4520, 12593, 64257, 10}
          Longest = 2
          Count = 1
          Chain = 3
INVARIANTS ChainIsForm OneEach
CHECK_DEADLOCK FALSE
