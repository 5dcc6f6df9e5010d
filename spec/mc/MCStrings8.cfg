SPECIFICATION Spec
CONSTANTS Alphabet = {97, 769, 8364, 127462}
          MaxCps = 2
          MaxUnits = 6
          Enc = "8"
          Slots = {1, 2}
VIEW View
INVARIANTS AllWellFormed LongestPrefix GraphemeCut RoundTrip
PROPERTIES Independent SwapKeeps AppendOnly
CHECK_DEADLOCK FALSE
